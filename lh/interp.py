"""Abstract interpreter: Python source (ast) -> gated value graph.

The analysed modules are only parsed.  Every repository call is inlined
(context-sensitive, call graph bounded), loops are summarised by mu terms,
branches that rejoin become gamma terms, every way out of a function is an
Outcome guarded by a path condition.
"""
from __future__ import annotations

import ast
from fractions import Fraction
import os

from .terms import INF, POS, NONNEG, Rng, T, TOP, Universe, reach


class AnalysisError(Exception):
    """The analysis itself is broken (vanished anchor, unparsable file...)."""


class Dead(Exception):
    """No execution continues past this point."""


# --------------------------------------------------------------------------
# structured abstract values
class PyTuple:
    def __init__(self, elems, kind="tuple"):
        self.elems = list(elems)
        self.kind = kind

    def __repr__(self):
        return "%s%r" % (self.kind, self.elems)


def grows(s, v):
    """The statement adds to the list v whatever happens."""
    if isinstance(s, (ast.With, ast.Try)):
        return any(grows(x, v) for x in s.body)
    c = s.value if isinstance(s, ast.Expr) else None
    return isinstance(s, ast.AugAssign) or isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == v


class PySummary:
    """A list/iterable of unknown length; `elems` are representative elements."""

    def __init__(self, elems, uid):
        self.elems = list(elems)
        self.uid = uid


class PyDict:
    def __init__(self, items):
        self.items = dict(items)


class PyFunc:
    def __init__(self, node, module, closure, defaults, kwdefaults, decos=(), name=None):
        self.node, self.module, self.closure = node, module, closure
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.decos = list(decos)  # list of (qualname, kwargs)
        self.name = name or getattr(node, "name", "<lambda>")

    @property
    def qual(self):
        return "%s:%s" % (self.module.rel, self.name)

    @property
    def jit(self):
        return any(q.startswith("numba.") for q, _ in self.decos)

    @property
    def fastmath(self):
        return any(q.startswith("numba.") and kw.get("fastmath") for q, kw in self.decos)


class PyExt:
    """An object living outside the repository, known by its qualified name."""

    def __init__(self, q):
        self.q = q

    def __repr__(self):
        return "<ext %s>" % self.q


class PyModule:
    def __init__(self, mod):
        self.mod = mod


class PyBound:
    def __init__(self, obj, name, var=None):
        self.obj, self.name, self.var = obj, name, var


class PyPartial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class _Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unbound()


class PyUnion:
    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return "union(%r,%r,%r)" % (self.cond, self.a, self.b)


class PyExc:
    def __init__(self, q, args=()):
        self.q, self.args = q, args


# --------------------------------------------------------------------------
class PC:
    """Path condition: literals closed under unit propagation."""

    __slots__ = ("lits", "ors", "asserted", "U")

    def __init__(self, U, lits=None, ors=(), asserted=()):
        self.U = U
        self.lits = lits if lits is not None else {}
        self.ors = ors
        self.asserted = asserted

    def eval(self, t):
        """True / False / None"""
        U = self.U
        if t is U.TRUE:
            return True
        if t is U.FALSE:
            return False
        v = self.lits.get(t.uid)
        if v is not None:
            return v
        if t.op == "not":
            v = self.eval(t.args[0])
            return None if v is None else not v
        if t.op == "and":
            vs = [self.eval(x) for x in t.args]
            if any(v is False for v in vs):
                return False
            return True if all(v is True for v in vs) else None
        if t.op == "or":
            vs = [self.eval(x) for x in t.args]
            if any(v is True for v in vs):
                return True
            return False if all(v is False for v in vs) else None
        if t.op in ("lt", "eq"):
            return self._cmp(t)
        return None

    def _facts(self, x):
        r = x.rng
        U = self.U
        for uid, v in self.lits.items():
            t = U.terms[uid]
            if t.op == "lt":
                a, b = t.args
                if a is x and (b.op == "const" or b.op == "pi" or b.rng.const() is not None) and isinstance(b.rng.lo, (Fraction, int)) :
                    r = r.meet(Rng(hi=b.rng.hi, his=True) if v else Rng(lo=b.rng.lo, los=b.rng.los))
                elif b is x and isinstance(a.rng.lo, (Fraction, int)) and (a.op in ("const", "pi") or a.rng.const() is not None):
                    r = r.meet(Rng(lo=a.rng.lo, los=True) if v else Rng(hi=a.rng.hi, his=a.rng.his))
            elif t.op == "eq" and v:
                a, b = t.args
                if a is x and U.isnum(b):
                    r = r.meet(b.rng)
                elif b is x and U.isnum(a):
                    r = r.meet(a.rng)
        return r

    def _cmp(self, t):
        a, b = t.args
        if a.kind not in ("real", "int") or b.kind not in ("real", "int"):
            return None
        x, y = self._facts(a), self._facts(b)
        if t.op == "lt":
            if x.hi < y.lo or (x.hi == y.lo and (x.his or y.los) and abs(x.hi) != INF):
                return True
            if x.lo >= y.hi and abs(x.lo) != INF:
                return False
        else:
            if x.hi < y.lo or y.hi < x.lo:
                return False
            if (x.hi == y.lo and (x.his or y.los)) or (y.hi == x.lo and (y.his or x.los)):
                return False
            if x.const() is not None and x.const() == y.const():
                return True
        return None

    def assume(self, t, pol=True, asserted=True):
        """Extended path condition or None when contradictory."""
        v = self.eval(t)
        if v is not None and v == pol:
            if t.uid in self.lits or t is self.U.TRUE or t is self.U.FALSE:
                return self
            return PC(self.U, self.lits, self.ors,
                      self.asserted + ((t, pol),) if asserted else self.asserted)
        if v is not None:
            return None
        n = PC(self.U, dict(self.lits), self.ors, self.asserted)
        if asserted:
            n.asserted = self.asserted + ((t, pol),)
        if not n._add(t, pol):
            return None
        if not n._propagate():
            return None
        return n

    def _add(self, t, pol):
        U = self.U
        if t.op == "not":
            return self._add(t.args[0], not pol)
        if t is U.TRUE:
            return pol
        if t is U.FALSE:
            return not pol
        old = self.lits.get(t.uid)
        if old is not None:
            return old == pol
        if (t.op == "and" and pol) or (t.op == "or" and not pol):
            self.lits[t.uid] = pol
            return all(self._add(x, pol) for x in t.args)
        if t.op in ("and", "or"):
            self.lits[t.uid] = pol
            self.ors = self.ors + ((t, pol),)
            return True
        if t.op in ("lt", "eq"):
            ev = self._cmp(t)
            if ev is not None:
                return ev == pol
        self.lits[t.uid] = pol
        if t.op == "lt":
            a, b = t.args
            if pol:
                r = U.mk("lt", (b, a), kind="bool")
                if r is not U.FALSE and r.op == "lt":
                    if self.lits.get(r.uid) is True:
                        return False
                    self.lits[r.uid] = False
                e = U.mk("eq", (a, b), kind="bool")
                if e.op == "eq":
                    if self.lits.get(e.uid) is True:
                        return False
                    self.lits[e.uid] = False
            else:
                return self._tricho(a, b)
        elif t.op == "eq":
            a, b = t.args
            if a.kind in ("real", "int") and b.kind in ("real", "int"):
                if pol:
                    for x, y in ((a, b), (b, a)):
                        r = U.mk("lt", (x, y), kind="bool")
                        if r.op == "lt":
                            if self.lits.get(r.uid) is True:
                                return False
                            self.lits[r.uid] = False
                else:
                    return self._tricho(a, b)
        elif t.op == "exit" and pol:
            for c, p in self.U.exit_conds_lits.get(t.uid, ()):
                if not self._add(c, p):
                    return False
        return True

    def _tricho(self, a, b):
        U = self.U
        ts = [U.mk("lt", (a, b), kind="bool"), U.mk("lt", (b, a), kind="bool"), U.mk("eq", (a, b), kind="bool")]
        vs = [True if x is U.TRUE else False if x is U.FALSE else self.lits.get(x.uid) for x in ts]
        if vs.count(False) == 3:
            return False
        if vs.count(False) == 2:
            i = [k for k in range(3) if vs[k] is not False][0]
            if vs[i] is None and ts[i].uid not in self.lits:
                self.lits[ts[i].uid] = True
        return True

    def _propagate(self):
        changed = True
        while changed:
            changed = False
            rest = []
            for t, pol in self.ors:
                # `t` is and/False or or/True: at least one arg has value `pol`
                vals = [self.eval(x) for x in t.args]
                if any(v is pol for v in vals):
                    continue
                unk = [x for x, v in zip(t.args, vals) if v is None]
                if not unk:
                    return False
                if len(unk) == 1:
                    if not self._add(unk[0], pol):
                        return False
                    changed = True
                    continue
                rest.append((t, pol))
            if len(rest) != len(self.ors) or changed:
                # _add may have appended new clauses
                new = [c for c in self.ors if c not in rest and c[0].uid not in {x[0].uid for x in rest}]
                keep = []
                for c in self.ors:
                    vals = [self.eval(x) for x in c[0].args]
                    if any(v is c[1] for v in vals):
                        continue
                    keep.append(c)
                self.ors = tuple(keep)
        return True

    def suffix(self, base):
        n = len(base.asserted)
        if self.asserted[:n] == base.asserted:
            return self.asserted[n:]
        i = 0
        while i < min(n, len(self.asserted)) and self.asserted[i] == base.asserted[i]:
            i += 1
        return self.asserted[i:]

    def term(self, base=None):
        U = self.U
        suf = self.asserted if base is None else self.suffix(base)
        return U.AND(*[t if p else U.NOT(t) for t, p in suf])


class State:
    __slots__ = ("env", "pc")

    def __init__(self, env, pc):
        self.env, self.pc = env, pc

    def copy(self):
        return State(dict(self.env), self.pc)


class Outcome:
    __slots__ = ("kind", "st", "val", "node")

    def __init__(self, kind, st, val=None, node=None):
        self.kind, self.st, self.val, self.node = kind, st, val, node


class Raise:
    def __init__(self, pc, exc, site, stack, msg=None, env=None, why="raise"):
        self.pc, self.exc, self.site, self.stack, self.msg, self.env = pc, exc, site, stack, msg, env
        self.why = why


class LoopInfo:
    def __init__(self, lid, site, kind, stack):
        self.id, self.site, self.kind, self.stack = lid, site, kind, stack
        self.bounds = ()
        self.conds = []
        self.exits = []  # list of (tag, exit term)
        self.nonempty = None
        self.infinite = False
        self.func = None
        self.outer = ()


class Module:
    def __init__(self, name, path, rel, tree):
        self.name, self.path, self.rel, self.tree = name, path, rel, tree
        self.env = None
        self.loading = False
        self.mutable_globals = set()


EXC_PARENTS = {
    "ValueError": "Exception", "RuntimeError": "Exception", "TypeError": "Exception",
    "AssertionError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "FloatingPointError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "ArithmeticError": "Exception", "UnboundLocalError": "NameError", "NameError": "Exception",
    "IndexError": "LookupError", "KeyError": "LookupError", "LookupError": "Exception",
    "AttributeError": "Exception", "NotImplementedError": "RuntimeError",
    "RecursionError": "RuntimeError", "StopIteration": "Exception", "FileNotFoundError": "OSError",
    "OSError": "Exception", "Exception": "BaseException", "KeyboardInterrupt": "BaseException",
    "ImportError": "Exception", "UnicodeError": "ValueError", "LinAlgError": "ValueError",
    "Warning": "Exception", "UserWarning": "Warning", "DeprecationWarning": "Warning",
    "RuntimeWarning": "Warning",
}


def exc_isa(e, parent):
    e = e.rsplit(".", 1)[-1]
    parent = parent.rsplit(".", 1)[-1]
    while e:
        if e == parent:
            return True
        e = EXC_PARENTS.get(e, "Exception" if e not in ("Exception", "BaseException") else
                            ("BaseException" if e == "Exception" else None))
    return False


UNARY = {}
for _n in ("sqrt sin cos tan sinh cosh tanh exp log floor ceil sign isfinite isnan isinf log10 log2 "
           "expm1 log1p cbrt square deg2rad rad2deg degrees radians gamma factorial trunc round").split():
    UNARY[_n] = _n
for _a, _b in (("arcsin", "asin"), ("arccos", "acos"), ("arctan", "atan"), ("arcsinh", "asinh"),
               ("arccosh", "acosh"), ("arctanh", "atanh")):
    UNARY[_a] = _a
    UNARY[_b] = _a
UNARY["gamma"] = "gammafn"
UNARY["absolute"] = UNARY["abs"] = UNARY["fabs"] = "abs"
BINARY = {"arctan2": "arctan2", "atan2": "arctan2", "copysign": "copysign", "mod": "mod", "fmod": "fmod",
          "remainder": "mod", "power": "pow", "pow": "pow", "hypot": "hypot", "maximum": "max",
          "minimum": "min", "fmax": "max", "fmin": "min", "add": "add", "subtract": "sub", "multiply": "mul",
          "divide": "div", "true_divide": "div", "poch": "poch", "matmul": "matmul", "floor_divide": "floordiv"}
MATHMODS = ("numpy", "math", "cmath", "scipy.special", "numpy.emath", "numpy.lib.scimath")
ALIAS_OPS = {"input", "view", "gamma", "mu"}
PURE_EXT_PREFIX = ("numpy.", "math.", "cmath.", "scipy.special.", "scipy.optimize.", "scipy.linalg.",
                   "builtins.", "functools.", "itertools.", "operator.", "numba.", "typing.",
                   "collections.", "dataclasses.", "fractions.", "decimal.", "abc.", "enum.", "warnings.",
                   "contextlib.", "types.", "numbers.", "copy.")
IMPURE_EXT_PREFIX = ("numpy.random", "numpy.save", "numpy.load", "numpy.seterr", "numpy.set_printoptions",
                     "builtins.print", "builtins.open", "builtins.input", "builtins.exec", "builtins.eval",
                     "builtins.id", "builtins.globals", "builtins.setattr", "builtins.hash")


class Interp:
    MAXDEPTH = 40

    force = {}  # loop id -> tag of the only way out that is followed
    compiled = True  # model the boundary of compiled functions (False: interpreted execution)

    def __init__(self, root, package="lamberthub"):
        self.root = root
        self.maybe_empty = set()
        self.package = package
        self.modules = {}
        self.U = Universe()
        self.U.exit_conds_lits = {}
        self.raises = []
        self.effects = []
        self.stack = []  # call stack of PyFunc
        self.frames = []
        self.notes = []  # unsupported constructs that were havocked
        self.calls = []  # (caller qual, callee qual / ext, site, stack)
        self.funcs_seen = {}
        self.uses = {}
        self.counter = 0
        self.loop_ctr = 0
        self._counted = {}
        self.loop_stack = []
        self.ext_handlers = {}
        self.module_mode = False
        self.observers = []
        self.fuel = 3_000_000
        self._load_all()

    # -- loading --------------------------------------------------------------
    def _load_all(self):
        src = os.path.join(self.root, "src")
        top = os.path.join(src, self.package)
        if not os.path.isdir(top):
            raise AnalysisError("package directory %s vanished" % top)
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)
                name = os.path.relpath(p, src)[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(p, "rb") as fh:
                    data = fh.read()
                try:
                    tree = ast.parse(data, p)
                except SyntaxError as e:
                    raise AnalysisError("cannot parse %s: %s" % (rel, e))
                self.modules[name] = Module(name, p, rel, tree)
                self.modules[name].is_pkg = f == "__init__.py"

    def module_env(self, m):
        if m.env is not None:
            return m.env
        m.env = {}
        st = State(m.env, PC(self.U))
        saved = self.raises, self.effects, self.stack, self.frames
        self.raises, self.effects = [], []
        f = PyFunc(ast.parse("def _module_():\n pass").body[0], m, None, [], {}, name="<module>")
        self.stack = [f]
        self.frames = [Frame(f, st, True)]
        try:
            for s in m.tree.body:
                try:
                    outs = self.exec_stmt(s, st)
                except Dead:
                    continue
                falls = [o for o in outs if o.kind == "fall"]
                if falls:
                    if falls[0].st.env is not m.env:
                        m.env.update(falls[0].st.env)
                    st.pc = PC(self.U)
        finally:
            self.raises, self.effects, self.stack, self.frames = saved
        return m.env

    def lookup_qual(self, modname, attr):
        """Resolve attribute of a (possibly external) module."""
        m = self.modules.get(modname)
        if m is None:
            sub = modname + "." + attr
            if sub in self.modules:
                return PyModule(self.modules[sub])
            return self.ext(sub)
        env = self.module_env(m)
        if attr in env:
            return env[attr]
        sub = modname + "." + attr
        if sub in self.modules:
            return PyModule(self.modules[sub])
        raise AnalysisError("%s has no attribute %s" % (modname, attr))

    CONSTS = {"numpy.inf": "inf", "math.inf": "inf", "numpy.nan": "nan", "math.nan": "nan"}

    def ext(self, q):
        q = self.canon(q)
        if q in ("numpy.pi", "math.pi", "cmath.pi", "scipy.constants.pi"):
            return self.U.PI
        if q in ("numpy.inf", "math.inf"):
            return self.U.mk("inf", (), kind="real")
        if q in ("numpy.nan", "math.nan"):
            return self.U.mk("nan", (), kind="real")
        if q in ("math.tau",):
            return self.U.mk("mul", (self.U.const(2), self.U.PI), kind="real")
        if q in ("math.e", "numpy.e"):
            return self.U.mk("exp", (self.U.const(1),), kind="real")
        return PyExt(q)

    @staticmethod
    def canon(q):
        if q.startswith("numpy.core."):
            q = "numpy." + q.rsplit(".", 1)[-1]
        return q

    # -- helpers ----------------------------------------------------------------
    def site(self, node):
        f = self.stack[-1] if self.stack else None
        return (f.module.rel if f else "?", getattr(node, "lineno", 0), f.name if f else "?")

    def fresh(self, op, node, args=(), kind="any", tag=""):
        """An opaque term determined by its site, call string and arguments."""
        key = (tag, self.site(node), tuple((f.name) for f in self.stack), tuple(self.callsites()))
        return self.U.mk(op, args, val=key, kind=kind)

    def callsites(self):
        return [fr.callsite for fr in self.frames]

    def note(self, msg, node):
        self.notes.append((msg, self.site(node)))

    def effect(self, kind, detail, node):
        self.effects.append((kind, detail, self.site(node), tuple(f.qual for f in self.stack)))

    def add_raise(self, st, pc, exc, node, msg=None, why="raise"):
        self.raises.append(Raise(pc, exc, self.site(node), tuple(f.qual for f in self.stack), msg,
                                 dict(st.env) if st is not None else None, why))

    # -- merging ----------------------------------------------------------------
    def merge_val(self, c, a, b):
        U = self.U
        if a is b:
            return a
        if c is U.TRUE:
            return a
        if c is U.FALSE:
            return b
        if isinstance(a, T) and isinstance(b, T):
            return U.mk("gamma", (c, a, b), kind=join_kind(a.kind, b.kind))
        if isinstance(a, PyTuple) and isinstance(b, PyTuple) and a.kind == b.kind and len(a.elems) == len(b.elems):
            if all(x is y for x, y in zip(a.elems, b.elems)):
                return a
            return PyTuple([self.merge_val(c, x, y) for x, y in zip(a.elems, b.elems)], a.kind)
        if isinstance(a, PyDict) and isinstance(b, PyDict) and a.items.keys() == b.items.keys():
            return PyDict({k: self.merge_val(c, a.items[k], b.items[k]) for k in a.items})
        if isinstance(a, PyExt) and isinstance(b, PyExt) and a.q == b.q:
            return a
        if isinstance(a, PyModule) and isinstance(b, PyModule) and a.mod is b.mod:
            return a
        if isinstance(a, PyFunc) and isinstance(b, PyFunc) and a.node is b.node and a.closure is b.closure:
            return a
        return PyUnion(c, a, b)

    def merge_env(self, c, e1, e2):
        out = {}
        for k in list(e1) + [k for k in e2 if k not in e1]:
            out[k] = self.merge_val(c, e1.get(k, UNBOUND), e2.get(k, UNBOUND))
        return out

    def merge_states(self, sts, base):
        """Merge fall-through states into one (pairwise exclusive path suffixes)."""
        if len(sts) == 1:
            return sts[0]
        U = self.U
        sufs = [list(s.pc.suffix(base)) for s in sts]
        common = [x for x in sufs[0] if all(x in s for s in sufs[1:])]
        own = [[x for x in s if x not in common] for s in sufs]
        conds = [U.AND(*[t if p else U.NOT(t) for t, p in o]) for o in own]
        # selector: the shortest distinguishing condition
        env = sts[-1].env
        for s, o, c in zip(reversed(sts[:-1]), reversed(own[:-1]), reversed(conds[:-1])):
            env = self.merge_env(self.selector(o, own), s.env, env)
        pc = base
        for t, p in common:
            n = pc.assume(t, p)
            pc = n if n is not None else pc
        disj = U.OR(*conds)
        if disj is not U.TRUE and not self._tautology(own):
            n = pc.assume(disj, True)
            pc = n if n is not None else pc
        return State(env, pc)

    def selector(self, own, all_own):
        """Condition selecting this branch among siblings: literals that are decided
        oppositely elsewhere; callee-validity literals are left out."""
        U = self.U
        keep = []
        for t, p in own:
            if any((t, not p) in o for o in all_own if o is not own):
                keep.append((t, p))
        if not keep or not self._excl(keep, own, all_own):
            keep = own
        return U.AND(*[t if p else U.NOT(t) for t, p in keep])

    def _excl(self, keep, own, all_own):
        for o in all_own:
            if o is own:
                continue
            if not any((t, not p) in o for t, p in keep):
                return False
        return True

    def _tautology(self, own):
        if len(own) == 2 and len(own[0]) == 1 and len(own[1]) == 1:
            (t, p), (u, q) = own[0][0], own[1][0]
            return t is u and p != q
        # generic: resolve on first literal
        if any(not o for o in own):
            return True
        if len(own) > 24:
            return False
        t = own[0][0][0]
        pos = [[l for l in o if l != (t, True)] for o in own if (t, False) not in o]
        neg = [[l for l in o if l != (t, False)] for o in own if (t, True) not in o]
        if not pos or not neg:
            return False
        if len(pos) == len(own) and len(neg) == len(own):
            return False
        return self._tautology(pos) and self._tautology(neg)

    # -- values -------------------------------------------------------------------
    def resolve(self, v, st):
        """Resolve top-level gamma/union by the path condition."""
        n = 0
        while True:
            n += 1
            if n > 200:
                return v
            if isinstance(v, T) and v.op == "gamma":
                r = st.pc.eval(v.args[0])
                if r is None:
                    return v
                v = v.args[1] if r else v.args[2]
            elif isinstance(v, PyUnion):
                r = st.pc.eval(v.cond)
                if r is None:
                    return v
                v = v.a if r else v.b
            else:
                return v

    def term(self, v, node):
        """Coerce to a Term."""
        U = self.U
        if isinstance(v, T):
            return v
        if isinstance(v, PyTuple):
            return U.mk("pack", [self.term(x, node) for x in v.elems], val=v.kind, kind="pack")
        if isinstance(v, PySummary):
            return U.mk("summary", [self.term(x, node) for x in v.elems], val=v.uid, kind="pack")
        if isinstance(v, PyDict):
            return U.mk("pack", [self.term(x, node) for x in v.items.values()], val="dict", kind="pack")
        if isinstance(v, PyUnion):
            return U.mk("gamma", (v.cond, self.term(v.a, node), self.term(v.b, node)), kind="any")
        if isinstance(v, PyExt):
            return U.mk("ext", (), val=v.q)
        if isinstance(v, PyFunc):
            return U.mk("func", (), val=v.qual)
        if isinstance(v, _Unbound):
            return U.mk("unbound", ())
        return U.mk("obj", (), val=type(v).__name__)

    def truth(self, v, st, node):
        U = self.U
        v = self.resolve(v, st)
        if isinstance(v, PyTuple):
            return U.const(bool(v.elems))
        if isinstance(v, PyDict):
            return U.const(bool(v.items))
        if isinstance(v, PySummary):
            return U.mk("nonempty", [self.term(x, node) for x in v.elems], val=v.uid, kind="bool")
        if isinstance(v, (PyFunc, PyExt, PyModule, PyBound)):
            return U.TRUE
        if isinstance(v, PyUnion):
            return U.ITE(v.cond, self.truth(v.a, st, node), self.truth(v.b, st, node))
        if isinstance(v, _Unbound):
            return U.FALSE
        t = self.term(v, node)
        if t.kind == "bool":
            return t
        if t.kind == "none":
            return U.FALSE
        if t.op == "const":
            if t.kind == "str":
                return U.const(bool(t.val))
            if t.kind == "npbool":
                return U.const(bool(t.val))
            if isinstance(t.val, Fraction):
                return U.const(t.val != 0)
        if t.op == "gamma" and (t.args[1].op == "const" or t.args[2].op == "const"):
            return U.ITE(t.args[0], self.truth(t.args[1], st, node), self.truth(t.args[2], st, node))
        if t.kind in ("npbool", "any") and t.op in ("input", "not", "and", "or", "lt", "eq", "isclose", "all", "any"):
            return U.mk("truth", (t,), kind="bool")
        if t.kind in ("real", "int"):
            return U.NOT(U.mk("eq", (t, U.const(0)), kind="bool"))
        return U.mk("truth", (t,), kind="bool")

    # -- function calls -------------------------------------------------------------
    def call(self, f, args, kw, st, node):
        U = self.U
        f = self.resolve(f, st)
        if isinstance(f, PyPartial):
            return self.call(f.f, list(f.args) + list(args), {**f.kw, **kw}, st, node)
        if isinstance(f, PyUnion):
            res = []
            for cond, g in ((f.cond, f.a), (U.NOT(f.cond), f.b)):
                pc = st.pc.assume(cond, True)
                if pc is None:
                    continue
                s = State(st.env, pc)
                try:
                    res.append((s, self.call(g, args, kw, s, node)))
                except Dead:
                    pass
            if not res:
                raise Dead()
            if len(res) == 1:
                st.pc = res[0][0].pc
                return res[0][1]
            return self.merge_val(f.cond, res[0][1], res[1][1])
        if isinstance(f, PyFunc):
            return self.call_func(f, args, kw, st, node)
        if isinstance(f, PyExt):
            self.calls.append((self.stack[-1].qual if self.stack else "", f.q, self.site(node)))
            from . import ext as X
            return X.call_ext(self, f.q, args, kw, st, node)
        if isinstance(f, PyBound):
            from . import ext as X
            return X.call_method(self, f, args, kw, st, node)
        if isinstance(f, PyClass):
            return f.instantiate(self, args, kw, st, node)
        if isinstance(f, T) and f.op == "const" and f.kind == "none":
            self.add_raise(st, st.pc, "TypeError", node, "call of None", why="type")
            raise Dead()
        self.note("call of unknown object %r" % (f,), node)
        return U.mk("unkcall", [self.term(f, node)] + [self.term(a, node) for a in args], val=self.site(node))

    def bind(self, f, args, kw, st, node):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if len(args) > len(pos) and not a.vararg:
            self.add_raise(st, st.pc, "TypeError", node, "%s() takes %d positional arguments but %d were given" % (
                f.name, len(pos), len(args)), why="arity")
            raise Dead()
        for n, v in zip(pos, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = PyTuple(args[len(pos):])
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in env and k in pos:
                self.add_raise(st, st.pc, "TypeError", node, "%s() got multiple values for %s" % (f.name, k), why="arity")
                raise Dead()
            if k in pos or k in kwonly:
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.add_raise(st, st.pc, "TypeError", node, "%s() got an unexpected keyword %s" % (f.name, k), why="arity")
                raise Dead()
        if a.kwarg:
            env[a.kwarg.arg] = PyDict(extra)
        for n, d in zip(reversed(pos), reversed(f.defaults)):
            env.setdefault(n, d)
        for n in kwonly:
            if n not in env and n in f.kwdefaults:
                env[n] = f.kwdefaults[n]
        for n in pos + kwonly:
            if n not in env:
                self.add_raise(st, st.pc, "TypeError", node, "%s() missing argument %s" % (f.name, n), why="arity")
                raise Dead()
        return env

    def call_func(self, f, args, kw, st, node):
        U = self.U
        if len(self.stack) > self.MAXDEPTH or sum(1 for g in self.stack if g.node is f.node) > 2:
            self.note("recursion/inlining bound reached at %s" % f.qual, node)
            return U.mk("recurse", [self.term(a, node) for a in list(args) + list(kw.values())], val=f.qual)
        if self.stack:
            self.calls.append((self.stack[-1].qual, f.qual, self.site(node)))
        self.funcs_seen[f.qual] = f
        env = self.bind(f, args, kw, st, node)
        if f.jit and self.compiled:
            # numba unboxes numpy.bool_ as a plain boolean
            for k, v in env.items():
                if isinstance(v, T) and v.op == "const" and v.kind == "npbool":
                    env[k] = U.const(bool(v.val))
                elif isinstance(v, T) and v.kind == "npbool":
                    env[k] = U.mk("truth", (v,), kind="bool")
        base = st.pc
        callsite = (self.site(node)[0], self.site(node)[1], getattr(node, "col_offset", 0))
        for ob in self.observers:
            ob("call", f, env, st, self.site(node))
        saved_site = U.site
        self.stack.append(f)
        fr = Frame(f, State(env, base))
        fr.callsite = callsite
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                s = State(env, base)
                fr.st = s
                v = self.eval(f.node.body, s)
                st.pc = s.pc
                return v
            if f.node.body and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f.node)):
                self.note("generator function", node)
                return PySummary([U.mk("unkcall", [self.term(x, node) for x in args], val=f.qual)], f.qual)
            outs = self.exec_block(f.node.body, State(env, base))
        finally:
            self.stack.pop()
            self.frames.pop()
            U.site = saved_site
        rets = []
        for o in outs:
            if o.kind == "return":
                rets.append((o.st, o.val))
            elif o.kind == "fall":
                rets.append((o.st, U.NONE))
        if not rets:
            raise Dead()
        if len(rets) > 1:
            # group by identical values
            groups = []
            for s, v in rets:
                for g in groups:
                    if same_val(g[1], v):
                        g[0].append(s)
                        break
                else:
                    groups.append(([s], v))
        for ob in self.observers:
            ob("return", f, rets, st, self.site(node))
        if len(rets) == 1:
            st.pc = rets[0][0].pc
            return rets[0][1]
        sts = [State({"": v}, s.pc) for s, v in rets]
        m = self.merge_states(sts, base)
        st.pc = m.pc
        return m.env[""]

    # -- statements -----------------------------------------------------------------
    def exec_block(self, stmts, st):
        done = []
        cur = st
        for s in stmts:
            self.fuel -= 1
            if self.fuel < 0:
                raise AnalysisError("analysis budget exhausted")
            try:
                outs = self.exec_stmt(s, cur)
            except Dead:
                return done
            falls = [o.st for o in outs if o.kind == "fall"]
            done += [o for o in outs if o.kind != "fall"]
            if not falls:
                return done
            cur = self.merge_states(falls, cur_base(falls, cur)) if len(falls) > 1 else falls[0]
        done.append(Outcome("fall", cur))
        return done

    def exec_stmt(self, s, st):
        self.U.site = self.site(s)
        if self.frames:
            self.frames[-1].st = st
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.note("unsupported statement %s" % type(s).__name__, s)
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    st.env[n.id] = self.fresh("opaque", n, tag="havoc:" + n.id)
            return [Outcome("fall", st)]
        return m(s, st)

    def x_Expr(self, s, st):
        if not isinstance(s.value, ast.Constant):
            self.eval(s.value, st)
        return [Outcome("fall", st)]

    def x_Pass(self, s, st):
        return [Outcome("fall", st)]

    def x_Global(self, s, st):
        if self.frames:
            self.frames[-1].globals |= set(s.names)
        return [Outcome("fall", st)]

    def x_Nonlocal(self, s, st):
        if self.frames:
            self.frames[-1].nonlocals |= set(s.names)
        return [Outcome("fall", st)]

    def x_Import(self, s, st):
        for a in s.names:
            if a.asname:
                self.set_name(a.asname, self.import_mod(a.name), st, s)
            else:
                top = a.name.split(".")[0]
                self.set_name(top, self.import_mod(top), st, s)
        return [Outcome("fall", st)]

    def import_mod(self, name):
        if name in self.modules:
            return PyModule(self.modules[name])
        return PyExt(name)

    def x_ImportFrom(self, s, st):
        base = s.module or ""
        if s.level:
            cur = self.stack[-1].module
            parts = cur.name.split(".")
            if not getattr(cur, "is_pkg", False):
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)] if s.level > 1 else parts
            base = ".".join(parts + ([base] if base else []))
        if base == "__future__":
            return [Outcome("fall", st)]
        for a in s.names:
            if a.name == "*":
                self.note("star import", s)
                if base in self.modules:
                    st.env.update(self.module_env(self.modules[base]))
                continue
            self.set_name(a.asname or a.name, self.lookup_qual(base, a.name), st, s)
        return [Outcome("fall", st)]

    def x_FunctionDef(self, s, st):
        self.set_name(s.name, self.make_func(s, st), st, s)
        return [Outcome("fall", st)]

    def x_ClassDef(self, s, st):
        q = [self.dotted(b, st) for b in s.bases]
        self.set_name(s.name, PyClass(s, self.stack[-1].module, q), st, s)
        return [Outcome("fall", st)]

    def dotted(self, n, st):
        try:
            v = self.eval(n, st)
        except Dead:
            return "?"
        if isinstance(v, PyExt):
            return v.q
        if isinstance(v, PyClass):
            return v.node.name
        return "?"

    def make_func(self, s, st):
        a = s.args
        defaults = [self.eval(d, st) for d in a.defaults]
        kwd = {x.arg: self.eval(d, st) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        closure = self.frames[-1] if self.frames and not self.frames[-1].is_module else None
        f = PyFunc(s, self.stack[-1].module, closure, defaults, kwd)
        if isinstance(s, ast.Lambda):
            return f
        v = f
        for d in reversed(s.decorator_list):
            dv = None
            kws = {}
            target = d.func if isinstance(d, ast.Call) else d
            tv = self.eval(target, st)
            if isinstance(tv, PyExt):
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg and isinstance(k.value, ast.Constant):
                            kws[k.arg] = k.value.value
                        elif k.arg:
                            kws[k.arg] = True
                if isinstance(v, PyFunc):
                    v.decos.append((tv.q, kws))
            elif isinstance(tv, PyFunc):
                if isinstance(d, ast.Call):
                    tv = self.eval(d, st)
                v = self.call(tv, [v], {}, st, d)
            else:
                self.note("unknown decorator", d)
        return v

    def x_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else self.U.NONE
        v = self.resolve(v, st)
        if isinstance(v, PyTuple):
            v = PyTuple([self.resolve(x, st) for x in v.elems], v.kind)
        return [Outcome("return", st, v, s)]

    def x_Raise(self, s, st):
        exc, msg = "Exception", None
        if s.exc is None:
            exc = st.env.get("\0exc", "Exception")
            if not isinstance(exc, str):
                exc = "Exception"
        else:
            v = self.eval(s.exc, st)
            v = self.resolve(v, st)
            if isinstance(v, PyExc):
                exc = v.q
                if v.args and isinstance(v.args[0], T) and v.args[0].op == "const":
                    msg = v.args[0].val
            elif isinstance(v, PyExt):
                exc = v.q.rsplit(".", 1)[-1]
            elif isinstance(v, PyClass):
                exc = v.excname()
            else:
                self.note("raise of unknown object", s)
                exc = "Exception"
        self.add_raise(st, st.pc, exc, s, msg)
        raise Dead()

    def x_Assert(self, s, st):
        c = self.cond(s.test, st)
        bad = st.pc.assume(c, False)
        if bad is not None:
            self.add_raise(st, bad, "AssertionError", s, why="assert")
        good = st.pc.assume(c, True)
        if good is None:
            raise Dead()
        st.pc = good
        return [Outcome("fall", st)]

    def x_If(self, s, st):
        c = self.cond(s.test, st)
        outs = []
        for pol, body in ((True, s.body), (False, s.orelse)):
            pc = st.pc.assume(c, pol)
            if pc is None:
                continue
            outs += self.exec_block(body, State(dict(st.env), pc))
        if not outs:
            raise Dead()
        falls = [o for o in outs if o.kind == "fall"]
        if len(falls) > 1:
            m = self.merge_states([o.st for o in falls], st.pc)
            outs = [o for o in outs if o.kind != "fall"] + [Outcome("fall", m)]
        return outs

    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return [Outcome("fall", st)]

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)
        return [Outcome("fall", st)]

    BIN = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "Pow": "pow", "Mod": "mod",
           "MatMult": "matmul", "FloorDiv": "floordiv", "BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor",
           "LShift": "shl", "RShift": "shr"}

    def x_AugAssign(self, s, st):
        op = self.BIN[type(s.op).__name__]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.read_name(t.id, st, t)
            v = self.eval(s.value, st)
            old = self.resolve(old, st)
            if isinstance(old, PyTuple) and old.kind == "list" and op == "add":
                v2 = self.resolve(v, st)
                if isinstance(v2, PyTuple):
                    st.env[t.id] = PyTuple(old.elems + v2.elems, "list")
                    return [Outcome("fall", st)]
            self.check_mutation(old, s, "augmented assignment to %s" % t.id)
            self.set_name(t.id, self.binop(op, old, v, st, s), st, s)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            idx = self.eval(t.slice, st)
            old = self.subscript(base, idx, st, t)
            v = self.binop(op, old, self.eval(s.value, st), st, s)
            self.store_sub(t, base, idx, v, st)
        elif isinstance(t, ast.Attribute):
            self.effect("setattr", ast.unparse(t), s)
            self.eval(s.value, st)
        return [Outcome("fall", st)]

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = UNBOUND
        return [Outcome("fall", st)]

    def x_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.exec_block(s.body, st)

    def x_Break(self, s, st):
        return [Outcome("break", st, None, s)]

    def x_Continue(self, s, st):
        return [Outcome("continue", st, None, s)]

    def x_Try(self, s, st):
        U = self.U
        n0 = len(self.raises)
        base = st.pc
        outs = self.exec_block(s.body, State(dict(st.env), st.pc))
        mine = self.raises[n0:]
        del self.raises[n0:]
        res = []
        if s.orelse:
            new = []
            for o in outs:
                if o.kind == "fall":
                    new += self.exec_block(s.orelse, o.st)
                else:
                    new.append(o)
            outs = new
        depth_env = None
        handled = [[] for _ in s.handlers]
        keep = []
        for r in mine:
            for i, h in enumerate(s.handlers):
                if self.handler_matches(h, r.exc, st):
                    handled[i].append(r)
                    break
            else:
                keep.append(r)
        self.raises += keep
        for i, h in enumerate(s.handlers):
            rs = handled[i]
            if not rs:
                continue
            sts = []
            for r in rs:
                # environment of this frame at the raise point: variables assigned in the
                # try body before the raise are approximated by the pre-state
                own = r.env if r.stack and r.stack == tuple(f.qual for f in self.stack) else None
                env = dict(own) if own is not None else dict(st.env)
                sts.append(State(env, r.pc))
            # call-internal path conditions are kept
            m = self.merge_states(sts, base) if len(sts) > 1 else sts[0]
            env = dict(m.env)
            env["\0exc"] = rs[0].exc
            hs = State(env, m.pc)
            if h.name:
                hs.env[h.name] = PyExc(rs[0].exc)
            self.stack[-1].__dict__.setdefault("handlers", [])
            res += self.exec_block(h.body, hs)
        outs = outs + res
        if s.finalbody:
            new = []
            for o in outs:
                fo = self.exec_block(s.finalbody, o.st)
                for p in fo:
                    if p.kind == "fall":
                        new.append(Outcome(o.kind, p.st, o.val, o.node))
                    else:
                        new.append(p)
            outs = new
        if not outs:
            raise Dead()
        falls = [o for o in outs if o.kind == "fall"]
        if len(falls) > 1:
            m = self.merge_states([o.st for o in falls], base)
            outs = [o for o in outs if o.kind != "fall"] + [Outcome("fall", m)]
        return outs

    def handler_matches(self, h, exc, st):
        if h.type is None:
            return True
        names = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for n in names:
            v = self.eval(n, st)
            q = v.q if isinstance(v, PyExt) else (v.node.name if isinstance(v, PyClass) else "?")
            if isinstance(v, PyTuple):
                if any(isinstance(x, PyExt) and exc_isa(exc, x.q) for x in v.elems):
                    return True
                continue
            if exc_isa(exc, q):
                return True
            if isinstance(v, PyClass) and exc == v.excname():
                return True
        return False

    # -- loops -------------------------------------------------------------------------
    def x_For(self, s, st):
        it = self.eval(s.iter, st)
        it = self.resolve(it, st)
        seq = self.unroll(it, 4)
        if seq is not None:
            return self.exec_unrolled(s, seq, st)
        return self.exec_loop(s, st, it)

    def x_While(self, s, st):
        if isinstance(s.test, ast.Constant) and s.test.value:
            r = self.bounded_while(s, st, 3)
            if r is not None:
                return r
        else:
            c = self.counted(s, st)
            if c is not None:
                loop, seq = c
                if len(seq) <= 4:
                    return self.exec_unrolled(loop, [self.U.const(i) for i in seq], st)
                return self.exec_loop(loop, st, PyRange([self.U.const(i) for i in (seq[0], seq[-1] + (1 if seq[1] > seq[0] else -1), seq[1] - seq[0])]))
            # the test never holds on entry: zero trips
            marks = len(self.raises), len(self.effects), len(self.calls), len(self.notes)
            e = State(dict(st.env), st.pc)
            c = self.cond(s.test, e)
            if st.pc.assume(c, True) is None:
                return self.exec_block(s.orelse, e) if s.orelse else [Outcome("fall", e)]
            del self.raises[marks[0]:]
            del self.effects[marks[1]:]
            del self.calls[marks[2]:]
            del self.notes[marks[3]:]
        return self.exec_loop(s, st, None)

    def counted(self, s, st):
        """A while loop that counts between constants, as the for loop over the values its counter takes."""
        t = s.test
        if not isinstance(t, ast.Compare) or s.orelse:
            return None
        names = {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
        if not all(isinstance(n, (ast.Compare, ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.cmpop, ast.expr_context))
                   for n in ast.walk(t)):
            return None
        vals = {n: st.env.get(n) for n in names}
        if not all(isinstance(v, T) and self.U.isnum(v) and isinstance(v.val, (int, Fraction)) and not isinstance(v.val, bool) and v.val == int(v.val)
                   for v in vals.values()):
            return None
        var = names & assigned_names(s.body)
        if len(var) != 1:
            return None
        (var,) = var
        step = at = None
        for i, x in enumerate(s.body):
            if var in assigned_names([x]):
                if at is not None:
                    return None
                at = i
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(x.op, (ast.Add, ast.Sub)):
                    d, sign = x.value, 1 if isinstance(x.op, ast.Add) else -1
                elif (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.BinOp)
                        and isinstance(x.value.op, (ast.Add, ast.Sub)) and isinstance(x.value.left, ast.Name) and x.value.left.id == var):
                    d, sign = x.value.right, 1 if isinstance(x.value.op, ast.Add) else -1
                else:
                    return None
                if not isinstance(d, ast.Constant) or type(d.value) is not int or d.value == 0:
                    return None
                step = sign * d.value
        if at is None or any(isinstance(n, ast.Continue) for x in s.body[:at] for n in ast.walk(x)):
            return None
        if any(isinstance(n, (ast.Nonlocal, ast.Global)) and var in n.names for n in ast.walk(self.stack[-1].node)):
            return None
        env = {n: int(v.val) for n, v in vals.items()}
        code = compile(ast.fix_missing_locations(ast.Expression(t)), "<test>", "eval")
        seq = []
        try:
            while eval(code, {"__builtins__": {}}, env):
                seq.append(env[var])
                env[var] += step
                if len(seq) > 300:
                    return None
        except Exception:
            return None
        if not seq:
            return None
        name = var + "'"
        key = (id(s), name)
        loop = self._counted.get(key)
        if loop is None:
            mk = lambda e: ast.copy_location(ast.Assign(targets=[ast.Name(id=var, ctx=ast.Store())], value=e), s.body[at])
            load = lambda: ast.Name(id=name, ctx=ast.Load())
            body = list(s.body)
            body[at] = mk(ast.BinOp(left=load(), op=ast.Add(), right=ast.Constant(step)))
            if at:
                body.insert(0, mk(load()))
            loop = ast.copy_location(ast.For(target=ast.Name(id=name, ctx=ast.Store()), iter=ast.Constant(None), body=body, orelse=[]), s)
            self._counted[key] = ast.fix_missing_locations(loop)
        return loop, seq

    def bounded_while(self, s, st, limit):
        """`while True` loops whose back edge is infeasible after at most `limit` rounds are
        unrolled exactly; None when the loop is a genuine loop."""
        marks = len(self.raises), len(self.effects), len(self.calls), len(self.notes), self.loop_ctr
        cur = State(dict(st.env), st.pc)
        base = st.pc
        outs, exits = [], []
        for _ in range(limit):
            try:
                o = self.exec_block(s.body, cur)
            except Dead:
                o = []
            outs += [x for x in o if x.kind == "return"]
            exits += [x.st for x in o if x.kind == "break"]
            nxt = [x.st for x in o if x.kind in ("fall", "continue")]
            if not nxt:
                if exits:
                    outs.append(Outcome("fall", self.merge_states(exits, base) if len(exits) > 1 else exits[0]))
                if not outs:
                    raise Dead()
                return outs
            cur = self.merge_states(nxt, cur.pc) if len(nxt) > 1 else nxt[0]
            cur = State(dict(cur.env), cur.pc)
        del self.raises[marks[0]:]
        del self.effects[marks[1]:]
        del self.calls[marks[2]:]
        del self.notes[marks[3]:]
        return None

    def unroll(self, it, limit):
        U = self.U
        if isinstance(it, PyTuple):
            return it.elems
        if isinstance(it, PyDict):
            return [U.const(k) for k in it.items]
        if isinstance(it, PyRange):
            b = [x.val if U.isnum(x) else None for x in it.bounds]
            if None not in b:
                r = range(*[int(x) for x in b])
                if len(r) <= limit:
                    return [U.const(i) for i in r]
        if isinstance(it, T) and it.op in ("vec", "array") and it.args:
            return list(it.args)
        if isinstance(it, T) and it.kind == "vec":
            return [self.comp(it, U.const(i)) for i in range(3)]
        return None

    def exec_unrolled(self, s, seq, st):
        outs, exits = [], []
        cur = st
        base = st.pc
        alive = True
        for v in seq:
            self.assign(s.target, v, cur)
            o = self.exec_block(s.body, State(dict(cur.env), cur.pc))
            nxt = [x.st for x in o if x.kind in ("fall", "continue")]
            exits += [x.st for x in o if x.kind == "break"]
            outs += [x for x in o if x.kind == "return"]
            if not nxt:
                alive = False
                break
            cur = self.merge_states(nxt, cur.pc) if len(nxt) > 1 else nxt[0]
        if alive:
            if s.orelse:
                o = self.exec_block(s.orelse, cur)
                outs += [x for x in o if x.kind != "fall"]
                exits += [x.st for x in o if x.kind == "fall"]
            else:
                exits.append(cur)
        if exits:
            m = self.merge_states(exits, base) if len(exits) > 1 else exits[0]
            outs.append(Outcome("fall", m))
        if not outs:
            raise Dead()
        return outs

    def exec_loop(self, s, st, it):
        U = self.U
        self.loop_ctr += 1
        lid = (tuple(self.callsites()), self.site(s), getattr(s, "col_offset", 0))
        # distinct loop instances (same site reached again with other values)
        k = 0
        while (lid, k) in U.loops and U.loops[(lid, k)].__dict__.get("done"):
            k += 1
        lid = (lid, k)
        is_for = isinstance(s, ast.For)
        assigned = assigned_names(s.body) | (assigned_names([s]) if is_for else set())
        if not is_for:
            assigned |= {n.target.id for n in ast.walk(s.test) if isinstance(n, ast.NamedExpr)}
        mutated = mutated_lists(s)
        targets = set()
        if is_for:
            targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        variant = {v for v in assigned | mutated if v in st.env and v not in targets}
        kinds = {}
        rounds = 0
        n_r, n_e, n_c = len(self.raises), len(self.effects), len(self.calls)
        while True:
            rounds += 1
            del self.raises[n_r:]
            del self.effects[n_e:]
            del self.calls[n_c:]
            info = LoopInfo(lid, self.site(s), "for" if is_for else "while", tuple(f.qual for f in self.stack))
            info.outer = tuple(self.loop_stack)
            info.func = self.stack[-1]
            info.entry = st.pc
            U.loops[lid] = info
            info.parents = list(self.loop_stack)
            res = self._loop_pass(s, st, it, lid, info, variant, kinds, targets)
            outs, back = res
            # convergence of the summary: drop invariant variables, fix kinds
            again = False
            if back is not None:
                for v in sorted(variant):
                    new = back.env.get(v, UNBOUND)
                    hdr = info.header.get(v)
                    if same_val(new, hdr):
                        variant.discard(v)
                        again = True
                    elif isinstance(hdr, T) and hdr.op == "mu" and isinstance(new, T):
                        jk = join_kind(hdr.kind, new.kind)
                        if jk != hdr.kind:
                            kinds[v] = jk
                            again = True
                    elif isinstance(hdr, PyTuple) and isinstance(new, PyTuple) and len(hdr.elems) == len(new.elems):
                        for i, (h, n2) in enumerate(zip(hdr.elems, new.elems)):
                            if isinstance(h, T) and h.op == "mu" and isinstance(n2, T):
                                jk = join_kind(h.kind, n2.kind)
                                if jk != h.kind:
                                    kinds[(v, i)] = jk
                                    again = True
            else:
                if variant:
                    # no back edge: the body runs at most once, header values are the initial ones
                    variant = set()
                    again = True
            if not again or rounds > 8:
                break
        info.done = True
        if back is not None:
            for v in variant:
                new = back.env.get(v, UNBOUND)
                self._set_next(info.header[v], new, s)
        return outs

    def _set_next(self, hdr, new, node):
        U = self.U
        if isinstance(hdr, T) and hdr.op == "mu":
            U.mu_next[hdr.uid] = self.term(new, node)
        elif isinstance(hdr, PyTuple):
            if isinstance(new, PyTuple) and len(new.elems) == len(hdr.elems):
                for h, n in zip(hdr.elems, new.elems):
                    self._set_next(h, n, node)
            else:
                for h in hdr.elems:
                    self._set_next(h, self.term(new, node), node)

    def _mk_mu(self, v, init, lid, kinds, node, idx=None):
        U = self.U
        key = v if idx is None else (v, idx)
        if isinstance(init, PyTuple) and idx is None and init.kind == "tuple":
            return PyTuple([self._mk_mu(v, e, lid, kinds, node, i) for i, e in enumerate(init.elems)], init.kind)
        it = self.term(init, node)
        kind = kinds.get(key, it.kind)
        t, new = U._intern("mu", (), (lid, v if idx is None else "%s[%d]" % (v, idx)), kind)
        t.kind = kind
        U.mu_init[t.uid] = it
        U.mu_loop[t.uid] = lid
        return t

    def _loop_pass(self, s, st, it, lid, info, variant, kinds, targets):
        U = self.U
        is_for = isinstance(s, ast.For)
        env = dict(st.env)
        info.header = {}
        for v in sorted(variant):
            init = st.env[v]
            if isinstance(init, PySummary) or (isinstance(init, PyTuple) and init.kind == "list") or isinstance(init, PyDict):
                if v in mutated_lists(s):
                    els = init.elems if not isinstance(init, PyDict) else list(init.items.values())
                    h = PySummary(els, (lid, v))
                    if not els and isinstance(init, PyTuple) and not any(grows(x, v) for x in s.body):
                        self.maybe_empty.add(h.uid)
                else:
                    h = init
            else:
                h = self._mk_mu(v, init, lid, kinds, s)
            info.header[v] = h
            env[v] = h
        hs = State(env, st.pc)
        base = st.pc
        # variables first bound inside the loop
        fresh_vars = {v for v in assigned_names(s.body) if v not in st.env}
        exits = []  # (tag, state)
        outs = []
        nonempty = None
        self.loop_stack.append(lid)
        try:
            if is_for:
                if isinstance(it, PyRange):
                    info.bounds = tuple(it.bounds)
                    iv = U.mk("iv", (), val=lid, kind="int")
                    lo, hi = it.lo_hi(U)
                    step = it.bounds[2] if len(it.bounds) > 2 else U.const(1)
                    if U.isnum(step) and step.val > 0:
                        rl = lo.rng
                        rh = hi.rng
                        iv.rng = Rng(rl.lo, rl.los, rh.hi - 1 if rh.hi != INF else INF, False)
                        if rl.hi < rh.lo or (rl.hi == rh.lo and (rl.his or rh.los)):
                            nonempty = True
                        elif lo.rng.const() is not None and rh.lo > rl.lo:
                            nonempty = True
                    info.iv = iv
                    elem = iv
                elif isinstance(it, PySummary):
                    elem = it.elems[0] if it.elems else U.mk("elem", (), val=(lid,))
                    for i, e in enumerate(it.elems[1:]):
                        c = U.mk("opaque", (), val=("sel", lid, i), kind="bool")
                        elem = self.merge_val(c, e, elem)
                    info.bounds = (self.term(it, s),)
                elif isinstance(it, PyZip):
                    elem = it.elem(self, lid)
                    info.bounds = ()
                else:
                    t = self.term(it, s)
                    elem = U.mk("elem", (t,), val=lid, kind="vec" if t.kind == "mat" else ("real" if t.kind in ("vec", "arr") else "any"))
                    info.bounds = (t,)
                bs = hs.copy()
                self.assign(s.target, elem, bs)
                hdr_false = None
            else:
                c = self.cond(s.test, hs)
                info.header_cond = c
                pc = hs.pc.assume(c, True)
                if c is U.TRUE:
                    info.infinite = True
                bs = State(dict(hs.env), pc) if pc is not None else None
                pcf = hs.pc.assume(c, False)
                hdr_false = State(dict(hs.env), pcf) if pcf is not None else None
            info.nonempty = nonempty
            body = self.exec_block(s.body, bs) if bs is not None else []
        finally:
            self.loop_stack.pop()
        backs = [o.st for o in body if o.kind in ("fall", "continue")]
        k = 0
        exit_list = []

        def mk_exit(tag, stt):
            e = U.mk("exit", (), val=(lid, tag), kind="bool")
            suf = stt.pc.suffix(base)
            U.exit_conds[e.uid] = [t for t, p in suf]
            U.exit_conds_lits[e.uid] = list(suf)
            info.conds += [t for t, p in suf]
            info.exits.append((tag, e))
            # path condition after the loop: the exit literal, its conditions derived
            n = PC(U, dict(stt.pc.lits), stt.pc.ors, base.asserted + ((e, True),))
            n.lits[e.uid] = True
            return n

        for o in body:
            if o.kind in ("break", "return"):
                tag = "%s%d" % (o.kind, k)
                k += 1
                pc = mk_exit(tag, o.st)
                if self.force.get(lid, tag) != tag:
                    continue
                ns = State(o.st.env, pc)
                if o.kind == "break":
                    exit_list.append(ns)
                else:
                    outs.append(Outcome("return", ns, o.val, o.node))
        back = None
        if backs:
            back = self.merge_states(backs, bs.pc) if len(backs) > 1 else backs[0]
        # normal exhaustion
        end = None
        if is_for:
            if back is not None or nonempty is not True:
                env2 = dict(hs.env)
                for v in targets | fresh_vars:
                    new = (back.env.get(v, UNBOUND) if back is not None else UNBOUND)
                    old = st.env.get(v, UNBOUND)
                    if nonempty:
                        env2[v] = new
                    else:
                        ne = U.mk("nonempty", [self.term(x, s) for x in (it.bounds if isinstance(it, PyRange) else ())], val=lid, kind="bool")
                        env2[v] = self.merge_val(ne, new, old)
                stt = State(env2, base)
                pc = mk_exit("end", stt)
                end = State(env2, pc)
        elif hdr_false is not None:
            for v in fresh_vars:
                new = (back.env.get(v, UNBOUND) if back is not None else UNBOUND)
                ne = U.mk("nonempty", (), val=lid, kind="bool")
                hdr_false.env[v] = self.merge_val(ne, new, UNBOUND)
            pc = mk_exit("end", hdr_false)
            end = State(hdr_false.env, pc)
        if self.force.get(lid, "end") != "end":
            end = None
        if back is not None:
            info.conds += [t for t, p in back.pc.suffix(base)]
        if end is not None:
            if s.orelse:
                o2 = self.exec_block(s.orelse, end)
                outs += [x for x in o2 if x.kind != "fall"]
                exit_list += [x.st for x in o2 if x.kind == "fall"]
            else:
                exit_list.append(end)
        # make exits mutually exclusive
        allx = [e for _, e in info.exits]
        def excl(stt):
            lits = stt.pc.lits
            for e in allx:
                if e.uid not in lits:
                    lits[e.uid] = False
        for stt in exit_list:
            excl(stt)
        for o in outs:
            excl(o.st)
        if exit_list:
            if len(exit_list) > 1:
                env = exit_list[-1].env
                conds = []
                for stt in exit_list:
                    conds.append(U.AND(*[t if p else U.NOT(t) for t, p in stt.pc.suffix(base)]))
                for stt, c in zip(reversed(exit_list[:-1]), reversed(conds[:-1])):
                    env = self.merge_env(c, stt.env, env)
                pc = base.assume(U.OR(*conds), True) or base
                m = State(env, pc)
            else:
                m = exit_list[0]
            outs.append(Outcome("fall", m))
        if not outs and not backs:
            raise Dead()
        if not outs:
            # only raises leave the loop
            info.noexit = True
            return [], back
        return outs, back

    # -- assignment ----------------------------------------------------------------------
    def set_name(self, name, v, st, node):
        fr = self.frames[-1] if self.frames else None
        if fr is not None and name in fr.globals:
            self.effect("global-write", name, node)
            return
        if fr is not None and name in fr.nonlocals:
            self.effect("nonlocal-write", name, node)
            g = fr.func.closure
            while g is not None:
                if name in g.st.env:
                    g.st.env[name] = v
                    return
                g = g.func.closure
            return
        st.env[name] = v

    def assign(self, t, v, st):
        U = self.U
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            idx = self.eval(t.slice, st)
            self.store_sub(t, base, idx, v, st)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            if isinstance(base, PyInst):
                base.attrs[t.attr] = v
            else:
                self.effect("setattr", ast.unparse(t), t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def unpack(self, t, v, st):
        U = self.U
        v = self.resolve(v, st)
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if isinstance(v, PyUnion):
            # unpack arms separately: wrong arity on one arm is a TypeError/ValueError there
            arms = []
            for cond, a in ((v.cond, v.a), (U.NOT(v.cond), v.b)):
                pc = st.pc.assume(cond, True)
                if pc is None:
                    continue
                arms.append((cond, pc, a))
            good = []
            for cond, pc, a in arms:
                s2 = State(dict(st.env), pc)
                try:
                    self.unpack(t, a, s2)
                    good.append(s2)
                except Dead:
                    pass
            if not good:
                raise Dead()
            m = self.merge_states(good, st.pc) if len(good) > 1 else good[0]
            st.env.clear()
            st.env.update(m.env)
            st.pc = m.pc
            return
        elems = self.elements(v, n, st, t)
        if elems is None or (not star and len(elems) != n) or (star and len(elems) < n - 1):
            self.add_raise(st, st.pc, "ValueError", t,
                           "cannot unpack %s into %d targets" % (len(elems) if elems is not None else "object", n), why="unpack")
            raise Dead()
        if star:
            i = star[0]
            k = len(elems) - (n - 1)
            for e, x in zip(t.elts[:i], elems[:i]):
                self.assign(e, x, st)
            self.assign(t.elts[i].value, PyTuple(elems[i:i + k], "list"), st)
            for e, x in zip(t.elts[i + 1:], elems[i + k:]):
                self.assign(e, x, st)
            return
        for e, x in zip(t.elts, elems):
            self.assign(e, x, st)

    def elements(self, v, n, st, node):
        U = self.U
        if isinstance(v, PyTuple):
            return v.elems
        if isinstance(v, PySummary):
            e = v.elems[0] if v.elems else U.mk("opaque", (), val=("elem", v.uid))
            return [e] * n
        if isinstance(v, T):
            if v.op in ("vec", "array") and v.args:
                return list(v.args)
            if v.op == "const":
                return None
            if v.op == "gamma":
                a = self.elements(v.args[1], n, st, node)
                b = self.elements(v.args[2], n, st, node)
                if a is not None and b is not None and len(a) == len(b):
                    return [self.merge_val(v.args[0], x, y) for x, y in zip(a, b)]
                return None
            if v.kind == "vec":
                return [self.comp(v, U.const(i)) for i in range(3)]
            if v.kind in ("real", "int", "bool"):
                return None
            if v.op == "matmul" or v.kind == "mat":
                return [U.mk("row", (v,), val=i, kind="vec") for i in range(n)]
            return [U.mk("item", (v,), val=i) for i in range(n)]
        if isinstance(v, PyZip):
            return [U.mk("opaque", (), val=("zipelem", i)) for i in range(n)]
        return None

    def store_sub(self, t, base, idx, v, st):
        U = self.U
        base = self.resolve(base, st)
        node = t
        if isinstance(base, PyDict):
            k = self.resolve(idx, st)
            if isinstance(k, T) and k.op == "const":
                if not self.local_obj(t.value, st):
                    self.effect("mutate-nonlocal", ast.unparse(t), t)
                base2 = PyDict({**base.items, (k.val if not isinstance(k.val, Fraction) else k.val): v})
                self.rebind(t.value, base2, st)
            else:
                if not self.local_obj(t.value, st):
                    self.effect("mutate-nonlocal", ast.unparse(t), t)
            return
        if isinstance(base, PyTuple):
            if base.kind == "tuple":
                self.add_raise(st, st.pc, "TypeError", t, "tuple item assignment", why="type")
                raise Dead()
            k = self.resolve(idx, st)
            if not self.local_obj(t.value, st):
                self.effect("mutate-nonlocal", ast.unparse(t), t)
            if isinstance(k, T) and U.isnum(k):
                el = list(base.elems)
                try:
                    el[int(k.val)] = v
                except IndexError:
                    return
                self.rebind(t.value, PyTuple(el, "list"), st)
            return
        if isinstance(base, PySummary):
            self.rebind(t.value, PySummary(base.elems + [v], base.uid), st)
            return
        bt = self.term(base, t)
        self.check_mutation(bt, t, "item assignment %s" % ast.unparse(t))
        if not self.local_obj(t.value, st):
            self.effect("mutate-nonlocal", ast.unparse(t), t)
        it = self.term(idx, t)
        vt = self.term(v, t)
        if bt.op in ("vec", "array") and U.isnum(it) and bt.args and -len(bt.args) <= int(it.val) < len(bt.args):
            el = list(bt.args)
            el[int(it.val)] = vt
            new = U.mk(bt.op, el, kind=bt.kind)
        else:
            new = U.mk("store", (bt, it, vt), kind=bt.kind)
        self.rebind(t.value, new, st)

    def local_obj(self, n, st):
        """Is the base name of expression n a local of the current frame?"""
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            n = n.value
        if isinstance(n, ast.Name):
            if self.frames and self.frames[-1].is_module:
                return True
            return n.id in st.env
        return True

    def rebind(self, n, v, st):
        if isinstance(n, ast.Name):
            old = st.env.get(n.id)
            st.env[n.id] = v
            if old is not None:
                for k, x in list(st.env.items()):
                    if x is old and k != n.id and not isinstance(x, T):
                        st.env[k] = v
                    elif x is old and k != n.id and isinstance(x, T) and x.kind in ("vec", "arr", "mat", "any") and x.op not in ("const",):
                        st.env[k] = v
        elif isinstance(n, ast.Subscript):
            base = self.eval(n.value, st)
            idx = self.eval(n.slice, st)
            self.store_sub(n, base, idx, v, st)

    def alias_inputs(self, t):
        """Input arrays whose storage `t` may share."""
        out, st, seen = set(), [t], set()
        while st:
            x = st.pop()
            if not isinstance(x, T) or x.uid in seen:
                continue
            seen.add(x.uid)
            if x.op == "input" and x.kind in ("vec", "arr", "mat", "any"):
                out.add(x.val)
            elif x.op == "global":
                out.add("global " + str(x.val))
            elif x.op in ("view", "store"):
                st.append(x.args[0])
            elif x.op == "gamma":
                st += x.args[1:]
            elif x.op == "mu":
                st.append(self.U.mu_init[x.uid])
                n = self.U.mu_next.get(x.uid)
                if n is not None:
                    st.append(n)
        return out

    def check_mutation(self, old, node, what):
        if isinstance(old, T):
            a = self.alias_inputs(old)
            if a:
                self.effect("mutate-input", "%s (storage of %s)" % (what, ", ".join(sorted(a))), node)

    # -- expressions -----------------------------------------------------------------------
    def eval(self, e, st):
        self.fuel -= 1
        if self.fuel < 0:
            raise AnalysisError("analysis budget exhausted")
        if hasattr(e, "lineno"):
            self.U.site = self.site(e)
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note("unsupported expression %s" % type(e).__name__, e)
            return self.fresh("opaque", e, tag="expr")
        return m(e, st)

    def cond(self, e, st):
        """Evaluate as a branch condition -> bool Term."""
        if isinstance(e, ast.BoolOp):
            return self.boolop_cond(e, st)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.U.NOT(self.cond(e.operand, st))
        v = self.eval(e, st)
        return self.truth(v, st, e)

    def boolop_cond(self, e, st):
        U = self.U
        is_and = isinstance(e.op, ast.And)
        acc = U.TRUE if is_and else U.FALSE
        pc0 = st.pc
        pc = pc0
        for i, x in enumerate(e.values):
            s = State(st.env, pc)
            n_r = len(self.raises)
            try:
                c = self.cond(x, s)
            except Dead:
                # this operand always raises when reached
                if i == 0:
                    raise
                st.pc = pc0.assume(acc, not is_and) or pc0
                return acc if not is_and else U.FALSE
            if i == 0:
                pc0 = s.pc
                st.pc = s.pc
            acc = U.AND(acc, c) if is_and else U.OR(acc, c)
            n = s.pc.assume(c, is_and)
            if n is None:
                return U.FALSE if is_and else U.TRUE
            pc = n
        return acc

    def e_BoolOp(self, e, st):
        U = self.U
        if all(self._boolish(v) for v in e.values):
            return self.boolop_cond(e, st)
        is_and = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], st)
        for x in e.values[1:]:
            c = self.truth(v, st, e)
            r = st.pc.eval(c)
            if r is not None:
                if r != is_and:
                    return v
                v = self.eval(x, st)
                continue
            pc = st.pc.assume(c, is_and)
            s = State(dict(st.env), pc)
            w = self.eval(x, s)
            v = self.merge_val(c, w, v) if is_and else self.merge_val(c, v, w)
        return v

    def _boolish(self, n):
        return isinstance(n, (ast.Compare, ast.BoolOp)) or (isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not)) or isinstance(n, ast.Name) or isinstance(n, ast.Call)

    def e_Constant(self, e, st):
        return self.U.const(e.value)

    def e_JoinedStr(self, e, st):
        U = self.U
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.term(self.eval(v.value, st), e))
            else:
                parts.append(U.const(v.value))
        return U.mk("fstr", parts, kind="str")

    def e_Name(self, e, st):
        return self.read_name(e.id, st, e)

    def read_name(self, name, st, node):
        U = self.U
        fr = self.frames[-1] if self.frames else None
        if fr is not None and name in fr.globals:
            self.effect("global-read", name, node)
            return U.mk("global", (), val=name)
        if name in st.env:
            v = self.resolve(st.env[name], st)
            return self.need_bound(v, name, st, node)
        if fr is not None and not fr.is_module and name in fr.locals:
            # a local that is not assigned yet on this path
            self.add_raise(st, st.pc, "UnboundLocalError", node, "local variable %r read before assignment" % name, why="unbound")
            raise Dead()
        # enclosing frames
        g = fr.func.closure if fr is not None else None
        while g is not None:
            if name in g.st.env:
                v = self.resolve(g.st.env[name], State(g.st.env, st.pc))
                return self.need_bound(v, name, st, node)
            g = g.func.closure
        mod = self.stack[-1].module
        env = self.module_env(mod)
        if name in env:
            v = env[name]
            if isinstance(v, (PyDict, PySummary)) or (isinstance(v, PyTuple) and v.kind == "list"):
                self.uses.setdefault((mod.rel, name), set()).add(self.stack[-1].qual)
            return v
        import builtins
        if hasattr(builtins, name):
            return PyExt("builtins." + name)
        self.add_raise(st, st.pc, "NameError", node, "name %r is not defined" % name, why="unbound")
        raise Dead()

    def need_bound(self, v, name, st, node):
        if v is UNBOUND:
            self.add_raise(st, st.pc, "UnboundLocalError", node, "variable %r may be unbound" % name, why="unbound")
            raise Dead()
        if isinstance(v, PyUnion) and has_unbound(v):
            bad = self.unbound_cond(v)
            pc = st.pc.assume(bad, True)
            if pc is not None:
                self.add_raise(st, pc, "UnboundLocalError", node, "variable %r may be unbound" % name, why="unbound")
            good = st.pc.assume(bad, False)
            if good is None:
                raise Dead()
            st.pc = PC(good.U, good.lits, good.ors, good.asserted)
            v = self.strip_unbound(v)
            return self.resolve(v, st)
        return v

    def unbound_cond(self, v):
        U = self.U
        if v is UNBOUND:
            return U.TRUE
        if isinstance(v, PyUnion):
            return U.ITE(v.cond, self.unbound_cond(v.a), self.unbound_cond(v.b))
        return U.FALSE

    def strip_unbound(self, v):
        if isinstance(v, PyUnion):
            a, b = self.strip_unbound(v.a), self.strip_unbound(v.b)
            if a is UNBOUND:
                return b
            if b is UNBOUND:
                return a
            return self.merge_val(v.cond, a, b)
        return v

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Tuple(self, e, st):
        return PyTuple(self.seq(e.elts, st), "tuple")

    def e_List(self, e, st):
        return PyTuple(self.seq(e.elts, st), "list")

    def e_Set(self, e, st):
        return PyTuple(self.seq(e.elts, st), "set")

    def seq(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.resolve(self.eval(x.value, st), st)
                el = self.unroll(v, 64)
                if el is None:
                    self.note("star expansion of unknown sequence", x)
                    out.append(self.term(v, x))
                else:
                    out += el
            else:
                out.append(self.eval(x, st))
        return out

    def e_Dict(self, e, st):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                vv = self.resolve(self.eval(v, st), st)
                if isinstance(vv, PyDict):
                    d.update(vv.items)
                else:
                    self.note("dict unpack of unknown mapping", e)
                continue
            kt = self.eval(k, st)
            vv = self.eval(v, st)
            d[self.dkey(kt, e)] = vv
        return PyDict(d)

    def dkey(self, k, node):
        if isinstance(k, T) and k.op == "const":
            return k.val
        if isinstance(k, PyTuple):
            return tuple(self.dkey(x, node) for x in k.elems)
        if isinstance(k, T):
            return ("term", k.uid)
        return ("obj", id(k))

    def e_Lambda(self, e, st):
        return self.make_func(e, st)

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        vals = []
        for pol, x in ((True, e.body), (False, e.orelse)):
            pc = st.pc.assume(c, pol)
            if pc is None:
                continue
            s = State(st.env, pc)
            try:
                vals.append((pol, self.eval(x, s), s))
            except Dead:
                pass
        if not vals:
            raise Dead()
        if len(vals) == 1:
            st.pc = vals[0][2].pc
            return vals[0][1]
        return self.merge_val(c, vals[0][1], vals[1][1])

    def comp_loop(self, e, elt, st, gens=None):
        """Comprehensions: exact when the iterables have a known length."""
        gens = e.generators if gens is None else gens
        g = gens[0]
        it = self.resolve(self.eval(g.iter, st), st)
        seq = self.unroll(it, 64)
        out = []
        if seq is not None:
            for v in seq:
                s = State(dict(st.env), st.pc)
                self.assign(g.target, v, s)
                ok = True
                conds = []
                for i in g.ifs:
                    c = self.cond(i, s)
                    r = s.pc.eval(c)
                    if r is False:
                        ok = False
                        break
                    if r is None:
                        conds.append(c)
                        s.pc = s.pc.assume(c, True)
                if not ok:
                    continue
                if len(gens) > 1:
                    out += self.comp_loop(e, elt, s, gens[1:])
                else:
                    out.append(elt(s))
                if conds:
                    self.note("filtered comprehension summarised", e)
                else:
                    st.pc = s.pc
            return out
        s = State(dict(st.env), st.pc)
        lid = ((tuple(self.callsites()), self.site(e), getattr(e, "col_offset", 0)), "comp")
        if lid not in self.U.loops:
            info = LoopInfo(lid, self.site(e), "comp", tuple(f.qual for f in self.stack))
            self.U.loops[lid] = info
            info.done = True
            info.parents = list(self.loop_stack)
        info = self.U.loops[lid]
        if isinstance(it, PyRange):
            elem = self.U.mk("iv", (), val=lid, kind="int")
            info.bounds = tuple(it.bounds)
            lo, hi = it.lo_hi(self.U)
            elem.rng = Rng(lo.rng.lo, lo.rng.los, hi.rng.hi - 1 if hi.rng.hi != INF else INF, False)
        elif isinstance(it, PySummary):
            elem = it.elems[0] if it.elems else self.U.mk("elem", (), val=lid)
        elif isinstance(it, PyZip):
            elem = it.elem(self, lid)
        else:
            t = self.term(it, e)
            elem = self.U.mk("elem", (t,), val=lid, kind="real" if t.kind in ("arr", "vec") else "any")
        self.assign(g.target, elem, s)
        for i in g.ifs:
            c = self.cond(i, s)
            n = s.pc.assume(c, True)
            if n is None:
                return PySummary([], lid)
            s.pc = n
        if len(gens) > 1:
            r = self.comp_loop(e, elt, s, gens[1:])
            els = r.elems if isinstance(r, PySummary) else r
            return PySummary(els, lid)
        return PySummary([elt(s)], lid)

    def e_ListComp(self, e, st):
        r = self.comp_loop(e, lambda s: self.eval(e.elt, s), st)
        return r if isinstance(r, PySummary) else PyTuple(r, "list")

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e, st):
        r = self.comp_loop(e, lambda s: (self.eval(e.key, s), self.eval(e.value, s)), st)
        if isinstance(r, PySummary):
            return PySummary([x[1] for x in r.elems], r.uid)
        return PyDict({self.dkey(k, e): v for k, v in r})

    def e_UnaryOp(self, e, st):
        U = self.U
        if isinstance(e.op, ast.Not):
            return U.NOT(self.cond(e.operand, st))
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.USub):
            v = self.resolve(v, st)
            t = self.term(v, e)
            return U.mk("neg", (t,), kind=num_kind(t.kind))
        t = self.term(v, e)
        if t.kind == "npbool" or t.kind == "arr" and t.op in ("veq", "veq0", "vlt", "vle", "vnot", "allbool", "isfinite", "isnan", "isinf"):
            return U.NOT(t) if t.kind == "npbool" else U.mk("vnot", (t,), kind="arr")
        return U.mk("invert", (t,), kind="any")

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        self.U.site = self.site(e)
        return self.binop(self.BIN[type(e.op).__name__], a, b, st, e)

    def binop(self, op, a, b, st, node):
        U = self.U
        a, b = self.resolve(a, st), self.resolve(b, st)
        if op == "add" and isinstance(a, PyTuple) and isinstance(b, PyTuple):
            return PyTuple(a.elems + b.elems, a.kind)
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, PyTuple) and isinstance(y, T) and U.isnum(y):
                    return PyTuple(x.elems * int(y.val), x.kind)
        if isinstance(a, T) and a.kind == "none" or isinstance(b, T) and b.kind == "none":
            self.add_raise(st, st.pc, "TypeError", node, "arithmetic on None", why="type")
            raise Dead()
        x, y = self.term(a, node), self.term(b, node)
        return self.arith(op, x, y, node)

    def arith(self, op, x, y, node):
        U = self.U
        if x.kind == "str" or y.kind == "str":
            return U.mk("str" + op, (x, y), kind="str")
        # a Python/NumPy bool used as a number
        if op in ("bitand", "bitor") and x.kind == "bool" and y.kind == "bool":
            return U.AND(x, y) if op == "bitand" else U.OR(x, y)
        kind = arith_kind(op, x.kind, y.kind)
        if op == "matmul" and x.kind == "vec" and y.kind == "vec":
            return U.mk("dot", (x, y), kind="real")
        # component-wise expansion of explicit small arrays (2-vectors, matrices)
        r = self.expand(op, x, y, node)
        if r is not None:
            return r
        return U.mk(op, (x, y), kind=kind)

    def expand(self, op, x, y, node):
        U = self.U
        def is_arr(t):
            return t.op == "array"
        if op == "matmul":
            if x.op == "array" and y.op == "array":
                xm = x.val == "mat"
                ym = y.val == "mat"
                if xm:
                    rows = [r.args for r in x.args]
                else:
                    rows = [x.args]
                if ym:
                    cols = list(zip(*[r.args for r in y.args]))
                else:
                    cols = [y.args]
                if any(len(r) != len(c) for r in rows for c in cols):
                    return None
                def dotp(r, c):
                    acc = None
                    for p, q in zip(r, c):
                        m = self.arith("mul", p, q, node)
                        acc = m if acc is None else self.arith("add", acc, m, node)
                    return acc
                out = [[dotp(r, c) for c in cols] for r in rows]
                if xm and ym:
                    return self.mk_mat(out)
                if xm:
                    return self.mk_arr([o[0] for o in out])
                if ym:
                    return self.mk_arr(out[0])
                return out[0][0]
            return None
        if op in ("add", "sub", "mul", "div"):
            if is_arr(x) and is_arr(y):
                if x.val == "mat" or y.val == "mat":
                    xr = [list(r.args) for r in x.args] if x.val == "mat" else [list(x.args)]
                    yr = [list(r.args) for r in y.args] if y.val == "mat" else [list(y.args)]
                    n = max(len(xr), len(yr))
                    if (len(xr) not in (1, n)) or (len(yr) not in (1, n)):
                        return None
                    out = []
                    for i in range(n):
                        p, q = xr[i if len(xr) > 1 else 0], yr[i if len(yr) > 1 else 0]
                        m = max(len(p), len(q))
                        if len(p) not in (1, m) or len(q) not in (1, m):
                            return None
                        out.append([self.arith(op, p[j if len(p) > 1 else 0], q[j if len(q) > 1 else 0], node) for j in range(m)])
                    return self.mk_mat(out)
                if len(x.args) == len(y.args):
                    return self.mk_arr([self.arith(op, p, q, node) for p, q in zip(x.args, y.args)])
                return None
            for p, q, sw in ((x, y, False), (y, x, True)):
                if is_arr(p) and q.kind in ("real", "int", "bool", "complex") and not (op == "div" and sw):
                    f = (lambda z: self.arith(op, q, z, node)) if sw else (lambda z: self.arith(op, z, q, node))
                    if p.val == "mat":
                        return self.mk_mat([[f(z) for z in r.args] for r in p.args])
                    return self.mk_arr([f(z) for z in p.args])
        return None

    def mk_arr(self, els):
        U = self.U
        return U.mk("array", els, val="vec", kind="vec" if len(els) == 3 else "arr")

    def mk_mat(self, rows):
        U = self.U
        return U.mk("array", [self.mk_arr(r) for r in rows], val="mat", kind="mat")

    def e_Compare(self, e, st):
        U = self.U
        left = self.eval(e.left, st)
        acc = None
        pc0 = None
        for op, rhs in zip(e.ops, e.comparators):
            right = self.eval(rhs, st)
            self.U.site = self.site(e)
            r = self.compare(type(op).__name__, left, right, st, e)
            acc = r if acc is None else U.AND(acc, r)
            left = right
        return acc

    def compare(self, op, a, b, st, node):
        U = self.U
        a, b = self.resolve(a, st), self.resolve(b, st)
        if op in ("In", "NotIn"):
            r = None
            if isinstance(b, PyTuple):
                r = U.OR(*[self.compare("Eq", a, x, st, node) for x in b.elems])
            elif isinstance(b, PyDict) and isinstance(a, T) and a.op == "const":
                r = U.const(a.val in b.items)
            else:
                r = U.mk("in", (self.term(a, node), self.term(b, node)), kind="bool")
            return r if op == "In" else U.NOT(r)
        if op in ("Eq", "NotEq") and isinstance(a, PyTuple) and isinstance(b, PyTuple):
            if len(a.elems) != len(b.elems):
                r = U.FALSE
            else:
                r = U.AND(*[self.compare("Eq", x, y, st, node) for x, y in zip(a.elems, b.elems)])
            return r if op == "Eq" else U.NOT(r)
        if op in ("Is", "IsNot"):
            if isinstance(a, T) and isinstance(b, T):
                if a is b and a.op == "input" and getattr(self, "equal_pair", False):
                    return U.FALSE if op == "Is" else U.TRUE  # equal values, not the same object
                r = U.mk("is", (a, b), kind="bool")
            elif isinstance(a, PyUnion) or isinstance(b, PyUnion):
                u, o = (a, b) if isinstance(a, PyUnion) else (b, a)
                r = U.ITE(u.cond, self.compare("Is", u.a, o, st, node), self.compare("Is", u.b, o, st, node))
            else:
                if isinstance(a, PyExt) and isinstance(b, PyExt):
                    r = U.const(a.q == b.q)
                elif isinstance(a, PyFunc) and isinstance(b, PyFunc):
                    r = U.const(a.node is b.node)
                else:
                    r = U.const(a is b)
            return r if op == "Is" else U.NOT(r)
        if isinstance(a, PyUnion) or isinstance(b, PyUnion):
            u, o, sw = (a, b, False) if isinstance(a, PyUnion) else (b, a, True)
            f = (lambda z: self.compare(op, z, o, st, node)) if not sw else (lambda z: self.compare(op, o, z, st, node))
            return U.ITE(u.cond, f(u.a), f(u.b))
        x, y = self.term(a, node), self.term(b, node)
        if op in ("Lt", "Gt", "LtE", "GtE") and ("none" in (x.kind, y.kind)):
            self.add_raise(st, st.pc, "TypeError", node, "ordering comparison with None", why="type")
            raise Dead()
        isv = x.kind in ("vec", "arr", "mat") or y.kind in ("vec", "arr", "mat")
        if not isv and "nan" in (x.op, y.op):  # every comparison with nan fails but "differs from"
            return U.const(op == "NotEq")
        if op in ("Eq", "NotEq") and not isv:
            for p, q in ((x, y), (y, x)):
                if q.op == "inf" and p.op in ("input", "const"):
                    return U.const(op == "NotEq")
        if isv:
            nm = {"Eq": "eq", "NotEq": "ne", "Lt": "lt", "Gt": "lt", "LtE": "le", "GtE": "le"}[op]
            if op in ("Gt", "GtE"):
                x, y = y, x
            if nm == "eq":
                if x is y:
                    return U.mk("allbool", (U.TRUE,), kind="arr")
                for p, q in ((x, y), (y, x)):
                    if U.isnum(q) and q.val == 0 and p.kind == "vec":
                        return U.mk("veq0", (p,), kind="arr")
                return U.mk("veq", (x, y) if x.uid < y.uid else (y, x), kind="arr")
            if nm == "ne":
                return U.mk("vnot", (self.compare("Eq", x, y, st, node),), kind="arr")
            return U.mk("v" + nm, (x, y), kind="arr")
        if op == "Eq":
            return U.mk("eq", (x, y), kind="bool")
        if op == "NotEq":
            return U.NOT(U.mk("eq", (x, y), kind="bool"))
        if op == "Lt":
            return U.mk("lt", (x, y), kind="bool")
        if op == "Gt":
            return U.mk("lt", (y, x), kind="bool")
        if op == "LtE":
            return U.NOT(U.mk("lt", (y, x), kind="bool"))
        if op == "GtE":
            return U.NOT(U.mk("lt", (x, y), kind="bool"))
        return U.mk("cmp" + op, (x, y), kind="bool")

    def e_Call(self, e, st):
        f = self.eval(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.resolve(self.eval(a.value, st), st)
                el = self.unroll(v, 64)
                if el is None:
                    self.note("star-args of unknown length", e)
                    args.append(self.term(v, e))
                else:
                    args += el
            else:
                args.append(self.eval(a, st))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                v = self.resolve(v, st)
                if isinstance(v, PyDict):
                    kw.update({kk: vv for kk, vv in v.items.items()})
                else:
                    self.note("** of unknown mapping", e)
            else:
                kw[k.arg] = v
        self.U.site = self.site(e)
        return self.call(f, args, kw, st, e)

    def e_Attribute(self, e, st):
        U = self.U
        b = self.resolve(self.eval(e.value, st), st)
        self.U.site = self.site(e)
        return self.getattr(b, e.attr, st, e)

    def getattr(self, b, attr, st, node):
        U = self.U
        if isinstance(b, PyModule):
            return self.lookup_qual(b.mod.name, attr)
        if isinstance(b, PyExt):
            return self.ext(b.q + "." + attr)
        if isinstance(b, PyInst):
            return b.get(self, attr, st, node)
        if isinstance(b, PyClass):
            return b.get(self, attr, st, node)
        if isinstance(b, PyUnion):
            return self.merge_val(b.cond, self.getattr(b.a, attr, State(st.env, st.pc), node),
                                  self.getattr(b.b, attr, State(st.env, st.pc), node))
        if isinstance(b, PyFunc):
            if attr == "py_func":
                return b
            if attr in ("__name__", "__qualname__"):
                return U.const(b.name)
            return U.mk("attr", (self.term(b, node),), val=attr)
        if isinstance(b, (PyTuple, PyDict, PySummary)):
            return PyBound(b, attr, node.value if isinstance(node, ast.Attribute) else None)
        if isinstance(b, T):
            if attr == "real":
                return U.mk("real", (b,), kind="real" if b.kind not in ("arr", "vec") else b.kind)
            if attr == "imag":
                if b.kind in ("real", "int"):
                    return U.const(0.0)
                return U.mk("imag", (b,), kind="real" if b.kind not in ("arr", "vec") else b.kind)
            if attr == "shape":
                sh = getattr(self, "shapes", {}).get(b.val if b.op == "input" else None)
                if sh is not None:
                    return PyTuple([U.const(i) for i in sh])
                if b.kind == "vec":
                    return PyTuple([U.const(3)])
                if b.op == "array":
                    if b.val == "mat":
                        return PyTuple([U.const(len(b.args)), U.const(len(b.args[0].args))])
                    return PyTuple([U.const(len(b.args))])
                return U.mk("attr", (b,), val="shape")
            if attr == "size":
                sh = getattr(self, "shapes", {}).get(b.val if b.op == "input" else None)
                if sh is not None:
                    p = 1
                    for i in sh:
                        p *= i
                    return U.const(p)
                if b.kind == "vec":
                    return U.const(3)
            if attr == "ndim":
                sh = getattr(self, "shapes", {}).get(b.val if b.op == "input" else None)
                if sh is not None:
                    return U.const(len(sh))
                if b.kind == "vec":
                    return U.const(1)
            if attr == "T":
                if b.op == "array" and b.val == "mat":
                    rows = [r.args for r in b.args]
                    return self.mk_mat([list(c) for c in zip(*rows)])
                if b.kind == "vec":
                    return U.mk("view", (b,), val="T", kind="vec")
                return U.mk("transpose", (b,), kind=b.kind)
            if attr in METHODS:
                return PyBound(b, attr, node.value if isinstance(node, ast.Attribute) else None)
            k = {"converged": "bool", "success": "bool", "iterations": "int", "nit": "int", "function_calls": "int",
                 "x": "real", "fun": "real", "root": "real", "eps": "real"}.get(attr, "any")
            if b.kind in ("real", "int", "bool", "npbool", "none", "str") and b.op != "gamma":
                self.add_raise(st, st.pc, "AttributeError", node, "attribute %s of %s" % (attr, b.kind), why="type")
                raise Dead()
            return U.mk("attr", (b,), val=attr, kind=k)
        if isinstance(b, PyExc):
            return U.mk("attr", (U.mk("obj", (), val=b.q),), val=attr)
        self.note("attribute %s of %r" % (attr, b), node)
        return self.fresh("opaque", node, tag="attr:" + attr)

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        i = self.eval(e.slice, st)
        self.U.site = self.site(e)
        return self.subscript(b, i, st, e)

    def e_Slice(self, e, st):
        U = self.U
        return U.mk("slice", [self.term(self.eval(x, st), e) if x is not None else U.NONE for x in (e.lower, e.upper, e.step)])

    def comp(self, v, i):
        U = self.U
        if v.op == "array" and v.args and U.isnum(i) and i.val.denominator == 1:
            k = int(i.val)
            if -len(v.args) <= k < len(v.args):
                return v.args[k]
        if U.isnum(i) and i.val < 0 and v.kind == "vec":
            i = U.const(int(i.val) + 3)
        nf = getattr(self, "nonfinite", None)
        if nf and v.op == "input" and v.val in nf and U.isnum(i) and int(i.val) == nf[v.val][1]:
            return U.mk(nf[v.val][0], (), kind="real")
        return U.mk("comp", (v, i), kind="real")

    def elem_kind(self, t, depth=0):
        """Kind of the elements of an array-valued term."""
        if depth > 12:
            return "real"
        if t.op == "newarr":
            return "complex" if t.val == "complex" else "real"
        if t.op == "array":
            ks = {a.kind for a in t.args}
            return "complex" if "complex" in ks else "real"
        if t.op == "mu":
            return self.elem_kind(self.U.mu_init[t.uid], depth + 1)
        if t.op in ("store", "view", "copy", "inplace") and t.args:
            k = self.elem_kind(t.args[0], depth + 1)
            if t.op == "store" and t.args[2].kind == "complex":
                k = "complex"
            return k
        if t.op == "gamma":
            ks = {self.elem_kind(a, depth + 1) for a in t.args[1:]}
            return "complex" if "complex" in ks else "real"
        if t.op in ("add", "sub", "mul", "div", "neg") and any(a.kind in ("arr", "mat") for a in t.args):
            ks = {self.elem_kind(a, depth + 1) if a.kind in ("arr", "mat", "vec") else a.kind for a in t.args}
            return "complex" if "complex" in ks else "real"
        return "real"

    def subscript(self, b, i, st, node):
        U = self.U
        b, i = self.resolve(b, st), self.resolve(i, st)
        if isinstance(b, PyUnion):
            res = []
            for c, x in ((b.cond, b.a), (U.NOT(b.cond), b.b)):
                pc = st.pc.assume(c, True)
                if pc is None:
                    continue
                try:
                    res.append(self.subscript(x, i, State(st.env, pc), node))
                except Dead:
                    pass
            if not res:
                raise Dead()
            return res[0] if len(res) == 1 else self.merge_val(b.cond, res[0], res[1])
        if isinstance(b, PyDict):
            k = self.dkey(i, node)
            if k in b.items:
                return b.items[k]
            if isinstance(i, T) and i.op == "gamma":
                return self.merge_val(i.args[0], self.subscript(b, i.args[1], st, node), self.subscript(b, i.args[2], st, node))
            if isinstance(i, T) and i.op != "const" and b.items:
                vals = list(b.items.values())
                ks = list(b.items)
                acc = vals[-1]
                for kk, v in zip(reversed(ks[:-1]), reversed(vals[:-1])):
                    c = U.mk("eq", (i, U.const(kk) if not isinstance(kk, (tuple, Fraction)) else U.const(0)), kind="bool")
                    if isinstance(kk, Fraction):
                        c = U.mk("eq", (i, U.num(kk, "int")), kind="bool")
                    acc = self.merge_val(c, v, acc)
                return acc
            self.add_raise(st, st.pc, "KeyError", node, why="type")
            raise Dead()
        if isinstance(b, PyTuple):
            if isinstance(i, T) and U.isnum(i):
                try:
                    return b.elems[int(i.val)]
                except IndexError:
                    self.add_raise(st, st.pc, "IndexError", node, why="type")
                    raise Dead()
            if isinstance(i, T) and i.op == "slice":
                bs = [None if x.kind == "none" else (int(x.val) if U.isnum(x) else "?") for x in i.args]
                if "?" not in bs:
                    return PyTuple(b.elems[slice(*bs)], b.kind)
            if isinstance(i, T) and i.kind == "bool" and len(b.elems) == 2:
                return self.merge_val(i, b.elems[1], b.elems[0])
            if isinstance(i, T) and b.elems:
                acc = b.elems[-1]
                for k in range(len(b.elems) - 2, -1, -1):
                    acc = self.merge_val(U.mk("eq", (i, U.const(k)), kind="bool"), b.elems[k], acc)
                return acc
            return self.fresh("opaque", node, tag="item")
        if isinstance(b, PySummary):
            if b.uid in self.maybe_empty and not (isinstance(i, T) and i.op == "slice"):
                c = self.truth(b, st, node)
                # (any condition on the list that was met may have settled that it is not empty)
                known = c is U.TRUE or st.pc.eval(c) is True or any(
                    x.op in ("nonempty", "summary") and x.val == b.uid
                    for x in reach([U.terms[u] for u in st.pc.lits] + [t for t, _ in st.pc.ors]).values())
                if not known:
                    bad = st.pc.assume(c, False)
                    if bad is not None:
                        self.add_raise(st, bad, "IndexError", node, "the list may be empty", why="type")
            if not b.elems:
                return U.mk("opaque", (), val=("elem", b.uid))
            acc = b.elems[-1]
            for k, x in enumerate(b.elems[:-1]):
                acc = self.merge_val(U.mk("opaque", (), val=("sel", b.uid, k), kind="bool"), x, acc)
            return acc
        if isinstance(b, PyExt):
            return b  # typing subscripts
        bt = self.term(b, node)
        if bt.kind == "none" or bt.kind in ("real", "int", "bool"):
            self.add_raise(st, st.pc, "TypeError", node, "subscript of a scalar", why="type")
            raise Dead()
        it = self.term(i, node)
        if it.op == "slice":
            return U.mk("view", (bt, it), val="slice", kind=bt.kind if bt.kind == "vec" and all(x.kind == "none" for x in it.args) else "arr")
        if bt.op == "gamma":
            return self.merge_val(bt.args[0], self.subscript(bt.args[1], i, st, node), self.subscript(bt.args[2], i, st, node))
        if bt.kind in ("vec", "arr") or bt.op == "array":
            if bt.kind != "vec" and not (bt.op == "array"):
                return U.mk("comp", (bt, it), kind=self.elem_kind(bt))
            n = len(bt.args) if bt.op == "array" and bt.args else 3 if bt.kind == "vec" else None
            if n and U.isnum(it) and it.val.denominator == 1 and not -n <= it.val < n:
                self.add_raise(st, st.pc, "IndexError", node, "index %d of %d elements" % (int(it.val), n), why="type")
                raise Dead()
            return self.comp(bt, it)
        if bt.kind == "mat":
            return U.mk("row", (bt, it), kind="vec")
        return U.mk("item", (bt, it), kind="any")


METHODS = {"dot", "copy", "sum", "max", "min", "mean", "any", "all", "astype", "conj", "conjugate", "item", "tolist",
           "reshape", "ravel", "flatten", "fill", "sort", "put", "itemset", "resize", "partition", "byteswap",
           "setflags", "append", "extend", "insert", "pop", "remove", "clear", "update", "get", "keys", "values",
           "items", "format", "join", "split", "upper", "lower", "strip", "setdefault", "index", "count", "prod",
           "transpose", "squeeze", "view", "swapaxes", "cumsum", "argmin", "argmax", "round", "clip", "hex",
           "is_integer", "startswith", "endswith", "reverse", "title", "replace", "add", "discard"}


class Frame:
    def __init__(self, func, st, is_module=False):
        self.func, self.st, self.is_module = func, st, is_module
        self.callsite = None
        self.globals, self.nonlocals = set(), set()
        self.locals = set()
        if not is_module and not isinstance(func.node, ast.Lambda):
            self.locals = assigned_names(func.node.body)
            a = func.node.args
            self.locals |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            for n in own_nodes(func.node):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    self.locals -= set(n.names)


class PyRange:
    def __init__(self, bounds):
        self.bounds = bounds

    def lo_hi(self, U):
        if len(self.bounds) == 1:
            return U.const(0), self.bounds[0]
        return self.bounds[0], self.bounds[1]


class PyZip:
    """zip/enumerate over sequences of unknown length."""

    def __init__(self, parts, enum=False):
        self.parts, self.enum = parts, enum

    def elem(self, I, lid):
        U = I.U
        out = []
        if self.enum:
            out.append(U.mk("iv", (), val=lid, kind="int"))
        for i, p in enumerate(self.parts):
            if isinstance(p, PyTuple) and p.elems:
                acc = p.elems[-1]
                for k, x in enumerate(p.elems[:-1]):
                    acc = I.merge_val(U.mk("opaque", (), val=("sel", lid, i, k), kind="bool"), x, acc)
                out.append(acc)
            elif isinstance(p, PySummary) and p.elems:
                out.append(p.elems[0])
            else:
                t = I.term(p, None) if not isinstance(p, PyRange) else U.mk("iv", (), val=lid, kind="int")
                out.append(t if t.op == "iv" else U.mk("elem", (t,), val=(lid, i), kind="real" if t.kind in ("arr", "vec") else "any"))
        return PyTuple(out)


class PyClass:
    def __init__(self, node, module, bases):
        self.node, self.module, self.bases = node, module, bases

    def excname(self):
        for b in self.bases:
            b = b.rsplit(".", 1)[-1]
            if b in EXC_PARENTS or b in ("Exception", "BaseException"):
                EXC_PARENTS.setdefault(self.node.name, b)
                return self.node.name
        return "Exception" if not self.bases else self.node.name

    def methods(self):
        return {n.name: n for n in self.node.body if isinstance(n, ast.FunctionDef)}

    def fields(self):
        return [(n.target.id, n.value) for n in self.node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]

    def instantiate(self, I, args, kw, st, node):
        names = [b.rsplit(".", 1)[-1] for b in self.bases]
        if any(exc_isa(b, "BaseException") and (b in EXC_PARENTS) for b in names):
            return PyExc(self.excname(), args)
        inst = PyInst(self)
        m = self.methods()
        if "__init__" in m:
            f = PyFunc(m["__init__"], self.module, None, [I.eval(d, st) for d in m["__init__"].args.defaults], {})
            I.call_func(f, [inst] + list(args), kw, st, node)
        else:
            fl = self.fields()
            if "NamedTuple" in names:
                vals = dict(zip([f for f, _ in fl], args))
                vals.update(kw)
                for f, d in fl:
                    if f not in vals and d is not None:
                        vals[f] = I.eval(d, st)
                t = PyTuple([vals.get(f, I.U.NONE) for f, _ in fl])
                inst.tuple = t
                inst.attrs = vals
                return inst
            for (f, d), a in zip(fl, list(args) + [None] * len(fl)):
                if a is not None:
                    inst.attrs[f] = a
                elif f in kw:
                    inst.attrs[f] = kw[f]
                elif d is not None:
                    inst.attrs[f] = I.eval(d, st)
        return inst

    def get(self, I, attr, st, node):
        m = self.methods()
        if attr in m:
            return PyFunc(m[attr], self.module, None, [I.eval(d, st) for d in m[attr].args.defaults], {})
        for n in self.node.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in n.targets):
                return I.eval(n.value, st)
        I.note("class attribute %s" % attr, node)
        return I.fresh("opaque", node, tag="cattr:" + attr)


class PyInst:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.tuple = None

    def get(self, I, attr, st, node):
        if attr in self.attrs:
            return self.attrs[attr]
        m = self.cls.methods()
        if attr in m:
            f = PyFunc(m[attr], self.cls.module, None, [I.eval(d, st) for d in m[attr].args.defaults], {})
            if any(isinstance(d, ast.Name) and d.id == "property" for d in m[attr].decorator_list):
                return I.call_func(f, [self], {}, st, node)
            if any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in m[attr].decorator_list):
                return f
            return PyPartial(f, [self], {})
        return self.cls.get(I, attr, st, node)


# -- small helpers -----------------------------------------------------------------
def own_nodes(fn):
    """Nodes of a function body without nested function bodies."""
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            st.append(c)


def assigned_names(stmts):
    out = set()
    st = list(stmts)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                st.append(g.iter)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            b = n.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                out.add("\0sub:" + b.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        st.extend(ast.iter_child_nodes(n))
    subs = {x[5:] for x in out if x.startswith("\0sub:")}
    return {x for x in out if not x.startswith("\0")} | (subs & out) | set()


def sub_stored(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                b = n.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
    return out


def mutated_lists(loop):
    out = set()
    for n in ast.walk(loop):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            if n.func.attr in ("append", "extend", "insert", "pop", "remove", "clear", "update", "add", "setdefault"):
                out.add(n.func.value.id)
    return out | sub_stored(loop.body)


def has_unbound(v):
    if v is UNBOUND:
        return True
    return isinstance(v, PyUnion) and (has_unbound(v.a) or has_unbound(v.b))


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, PyTuple) and isinstance(b, PyTuple):
        return a.kind == b.kind and len(a.elems) == len(b.elems) and all(same_val(x, y) for x, y in zip(a.elems, b.elems))
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        return a.items.keys() == b.items.keys() and all(same_val(a.items[k], b.items[k]) for k in a.items)
    if isinstance(a, PySummary) and isinstance(b, PySummary):
        return a.uid == b.uid and len(a.elems) == len(b.elems) and all(same_val(x, y) for x, y in zip(a.elems, b.elems))
    if isinstance(a, PyExt) and isinstance(b, PyExt):
        return a.q == b.q
    if isinstance(a, PyFunc) and isinstance(b, PyFunc):
        return a.node is b.node
    return False


def join_kind(a, b):
    if a == b:
        return a
    s = {a, b}
    if s <= {"int", "bool"}:
        return "int"
    if s <= {"real", "int", "bool"}:
        return "real"
    if s <= {"real", "int", "complex", "bool"}:
        return "complex"
    return "any"


def num_kind(k):
    return "int" if k == "bool" else k


def arith_kind(op, a, b):
    s = {a, b}
    for k in ("mat", "vec", "arr"):
        if k in s:
            if op == "matmul":
                if s == {"mat", "vec"}:
                    return "vec"
                if s == {"mat"}:
                    return "mat"
            return k
    if "any" in s or "pack" in s:
        return "any"
    if "complex" in s:
        return "complex"
    if op in ("div",):
        return "real"
    if s <= {"int", "bool", "npbool"}:
        return "int" if op != "pow" else "int"
    return "real"


def cur_base(falls, cur):
    return cur.pc
