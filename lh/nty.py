"""Numeric types of values: an abstract interpreter over the syntax trees, inlining calls.

A value is a frozenset of atoms:
  "I"   an integer that stems from the caller's integers (64-bit once it meets numpy or compiled code)
  "s"   a small integer (constant, counter, length)      "f"  a floating-point (or complex) number
  "b"   a truth value   "N"  None   "str"   "U"  anything
  ("A", elements)  an array    ("T", values)  a tuple    ("L", value)  a list    ("D", items)  a dictionary
  ("F", id)  a function of the package or a closure    ("X", dotted name)  something from outside
"""
import ast

I, S, F_, B, N, STR, U = (frozenset([x]) for x in ("I", "s", "f", "b", "N", "str", "U"))
FLOATF = {"sqrt", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "arctan2", "sinh", "cosh", "tanh", "arcsinh", "arccosh", "arctanh", "exp", "log", "log10", "log2", "log1p", "expm1", "hypot",
          "cbrt", "deg2rad", "rad2deg", "degrees", "radians", "acos", "asin", "atan", "atan2", "acosh", "asinh", "atanh", "linspace", "mean", "gamma", "norm", "copysign", "float_power", "exp2",
          "perf_counter", "time", "fabs", "ldexp", "divide", "true_divide", "interp", "std", "var", "median", "average", "float64", "float32", "longdouble", "float", "complex", "complex128", "roots", "nextafter", "nan_to_num"}
SAMEF = {"abs", "absolute", "negative", "positive", "max", "min", "maximum", "minimum", "clip", "amax", "amin", "sum", "add", "subtract", "array", "asarray", "ascontiguousarray", "copy", "atleast_1d",
         "atleast_2d", "squeeze", "ravel", "reshape", "real", "flip", "roll", "sort", "diff", "cumsum", "concatenate", "hstack", "vstack", "stack", "broadcast_to", "where", "conj", "fmax", "fmin", "tile", "repeat",
         "expand_dims", "transpose", "floor_divide", "mod", "remainder", "fmod", "take", "append", "asfarray_", "fix_", "asanyarray", "require", "divmod"}
PRODF = {"cross", "dot", "vdot", "inner", "outer", "matmul", "multiply", "prod", "cumprod", "square", "power", "einsum", "kron", "tensordot", "convolve", "trapz"}
BOOLF = {"isclose", "allclose", "all", "any", "equal", "not_equal", "array_equal", "isfinite", "isnan", "isinf", "logical_and", "logical_or", "logical_not", "less", "greater", "signbit", "isscalar",
         "isinstance", "callable", "hasattr", "bool", "array_equiv", "iscomplex", "isreal", "issubdtype", "less_equal", "greater_equal", "bool_"}
SMALLF = {"len", "sign", "factorial", "argmin", "argmax", "size", "ndim", "count_nonzero", "int8", "round", "ceil", "floor", "trunc", "rint", "heaviside", "id", "hash", "ord", "argsort", "nonzero"}
ROOTF = {"newton", "brentq", "bisect", "brenth", "ridder", "toms748", "root_scalar", "fsolve", "minimize_scalar", "quad", "minimize", "solve_ivp", "root"}


def elem(v):
    """Number atoms met when one element (at any depth) of the value is taken."""
    out = set()
    for a in v:
        if isinstance(a, str):
            out.add(a)
        elif a[0] in ("A", "L"):
            out |= elem(a[1])
        elif a[0] == "T":
            for x in a[1]:
                out |= elem(x)
    return frozenset(out)


def isarr(v):
    return any(not isinstance(a, str) and a[0] in ("A", "L", "T") for a in v)


def depth(v):
    d = 0
    for a in v:
        if isinstance(a, tuple) and a[0] in ("A", "L"):
            d = max(d, 1 + depth(a[1]))
        elif isinstance(a, tuple) and a[0] == "T":
            d = max(d, 1 + max([depth(x) for x in a[1]] or [0]))
    return d


def join(*vs):
    out = frozenset().union(*vs)
    ts = [a for a in out if isinstance(a, tuple) and a[0] == "T"]
    if len(ts) > 1:
        byn = {}
        for t in ts:
            byn.setdefault(len(t[1]), []).append(t)
        out = frozenset(a for a in out if a not in ts)
        for n, xs in byn.items():
            out |= {("T", tuple(join(*[x[1][i] for x in xs]) for i in range(n)))}
    for k in ("A", "L"):
        xs = [a for a in out if isinstance(a, tuple) and a[0] == k]
        if len(xs) > 1:
            # arrays of different element types stay apart: an integer array must not pass for a floating-point one
            if k == "L" or len(xs) > 4:
                out = frozenset(a for a in out if a not in xs) | {(k, join(*[x[1] for x in xs]))}
    if len(out) > 12:
        return U
    return out


class Fn:
    def __init__(self, node, mod, env):
        self.node, self.mod, self.env = node, mod, env


class Stop(Exception):
    pass


class Typer:
    def __init__(self, mods, resolve):
        self.mods, self.resolve = mods, resolve
        self.fns = []
        self.fid = {}
        self.memo = {}
        self.stack = []
        self.alarms = {}
        self.unknown = {}
        self.nops = 0
        self.nfun = set()
        self.globals = {}

    # -- reports -----------------------------------------------------------------
    def alarm(self, node, rule, msg):
        m, f = self.stack[-1] if self.stack else (None, None)
        k = (m.rel if m else "", getattr(node, "lineno", 0), rule)
        self.alarms.setdefault(k, (rule, msg, (k[0], k[1], f.name if isinstance(f, ast.FunctionDef) else "<lambda>")))

    def unk(self, node, what):
        m, f = self.stack[-1] if self.stack else (None, None)
        self.unknown.setdefault((m.rel if m else "", getattr(node, "lineno", 0)), what)

    # -- functions -----------------------------------------------------------------
    def fn(self, node, mod, env):
        key = (id(node), None if env is None else id(env))
        if key not in self.fid:
            self.fid[key] = len(self.fns)
            self.fns.append(Fn(node, mod, env))
        return frozenset([("F", self.fid[key])])

    def bind(self, fn, args, kw):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = frozenset([("T", tuple(args[len(names):]))])
        for k, v in kw.items():
            env[k] = v
        ds = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in ds:
            if n not in env:
                env[n] = Eval(self, fn.mod, {}, None).ev(d)
        for n in names:
            env.setdefault(n, U)
        return env

    def call(self, k, args, kw, node=None):
        fn = self.fns[k]
        args = [join(a) for a in args]
        if len(self.stack) > 40 or any(depth(a) > 6 for a in args):
            return U
        env = self.bind(fn, args, kw)
        key = (k, tuple(sorted(env.items(), key=lambda x: x[0])) if fn.env is None else None)
        if fn.env is None and key in self.memo:
            return self.memo[key]
        if sum(1 for m, f in self.stack if f is fn.node) >= 2:
            return frozenset()
        if fn.env is None:
            self.memo[key] = frozenset()
        self.stack.append((fn.mod, fn.node))
        self.nfun.add((fn.mod.rel, getattr(fn.node, "name", "<lambda>"), fn.node.lineno))
        try:
            E = Eval(self, fn.mod, env, fn.env)
            if isinstance(fn.node, ast.Lambda):
                out = E.ev(fn.node.body)
            else:
                E.block(fn.node.body)
                out = E.ret if E.dead else join(E.ret, N)
        finally:
            self.stack.pop()
        if fn.env is None:
            self.memo[key] = out
        return out

    def glob(self, q):
        """Value of a module name of the package."""
        if q in self.globals:
            return self.globals[q]
        b, _, n = q.rpartition(".")
        m = self.mods.get(b)
        if m is None:
            return None
        self.globals[q] = U
        d = m.defs.get(n)
        if isinstance(d, ast.FunctionDef):
            v = self.fn(d, m, None)
        elif d is not None:
            v = frozenset([("X", q)])
        else:
            v = None
            for st in m.binds.get(n, ()):
                if isinstance(st, ast.Assign):
                    e = Eval(self, m, {}, None)
                    x = e.ev(st.value) if any(isinstance(t, ast.Name) and t.id == n for t in st.targets) else U
                    v = x if v is None else join(v, x)
                else:
                    v = U
        self.globals[q] = v
        return v


class Eval:
    def __init__(self, T, mod, env, up):
        self.T, self.mod, self.env, self.up = T, mod, env, up
        self.ret = frozenset()
        self.dead = False
        self.brk, self.cont = [], []

    # -- statements ----------------------------------------------------------------
    def block(self, body):
        for st in body:
            if self.dead:
                return
            self.st(st)

    def merge(self, a, b):
        """Join of two environments (None: unreachable)."""
        if a is None or b is None:
            return a if b is None else b
        return {k: (join(a[k], b[k]) if k in a and k in b else a.get(k, b.get(k))) for k in set(a) | set(b)}

    def set_env(self, e):
        self.dead = e is None
        if e is not None:
            # closures keep a reference to the dictionary
            self.env.clear()
            self.env.update(e)

    def st(self, st):
        T = self.T
        if isinstance(st, ast.Assign):
            v = self.ev(st.value)
            for t in st.targets:
                self.store(t, v, st)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.store(st.target, self.ev(st.value), st)
        elif isinstance(st, ast.AugAssign):
            l = self.ev(st.target if not isinstance(st.target, ast.Name) else ast.copy_location(ast.Name(st.target.id, ast.Load()), st.target), load=True)
            r = self.ev(st.value)
            v = self.op(st, st.op, l, r)
            if isinstance(st.target, ast.Name) and isarr(l):
                ints = [a for a in l if isinstance(a, tuple) and a[0] == "A" and a[1] and a[1] <= {"I", "s"}]
                if ints and ("f" in elem(r) or isinstance(st.op, ast.Div)):
                    T.alarm(st, "store", "a floating-point value is accumulated in an array of integers")
            self.store(st.target, v, st)
        elif isinstance(st, ast.Expr):
            self.ev(st.value)
        elif isinstance(st, ast.Return):
            self.ret = join(self.ret, self.ev(st.value) if st.value is not None else N)
            self.dead = True
        elif isinstance(st, ast.Raise):
            if st.exc is not None:
                self.ev(st.exc)
            self.dead = True
        elif isinstance(st, ast.If):
            self.ev(st.test)
            e0 = dict(self.env)
            self.narrow(st.test, True)
            self.block(st.body)
            e1 = None if self.dead else dict(self.env)
            self.set_env(e0)
            self.narrow(st.test, False)
            self.block(st.orelse)
            e2 = None if self.dead else dict(self.env)
            self.set_env(self.merge(e1, e2))
        elif isinstance(st, (ast.For, ast.While)):
            self.loop(st)
        elif isinstance(st, ast.Try) or hasattr(ast, "TryStar") and isinstance(st, ast.TryStar):
            e0 = dict(self.env)
            self.block(st.body)
            self.block(st.orelse)
            e1 = None if self.dead else dict(self.env)
            outs = [e1]
            start = self.merge(e0, e1)
            for h in st.handlers:
                self.set_env(dict(start))
                if h.name:
                    self.env[h.name] = U
                self.block(h.body)
                outs.append(None if self.dead else dict(self.env))
            e = None
            for x in outs:
                e = self.merge(e, x)
            self.set_env(e)
            if e is None:
                self.env.update(start)
                self.dead = False
                self.block(st.finalbody)
                self.dead = True
            else:
                self.block(st.finalbody)
        elif isinstance(st, ast.With):
            for w in st.items:
                self.ev(w.context_expr)
                if w.optional_vars is not None:
                    self.store(w.optional_vars, U, st)
            self.block(st.body)
        elif isinstance(st, ast.FunctionDef):
            self.env[st.name] = T.fn(st, self.mod, (self.env, self.up) if False else self.scope())
        elif isinstance(st, ast.Break):
            self.brk.append(dict(self.env))
            self.dead = True
        elif isinstance(st, ast.Continue):
            self.cont.append(dict(self.env))
            self.dead = True
        elif isinstance(st, ast.Assert):
            self.ev(st.test)

    def scope(self):
        if not hasattr(self, "_scope"):
            self._scope = Scope(self.env, self.up)
        return self._scope

    def narrow(self, test, val):
        """x is None / x is not None."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, not val)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            isnone = isinstance(test.ops[0], (ast.Is, ast.Eq)) == val
            v = self.env.get(test.left.id)
            if v is not None and "N" in v and len(v) > 1:
                self.env[test.left.id] = N if isnone else v - {"N"}

    def loop(self, st):
        sb, sc = self.brk, self.cont
        if isinstance(st, ast.For):
            it = self.ev(st.iter)
        out = None
        brks = []
        for _ in range(12):
            before = dict(self.env)
            self.brk, self.cont = [], []
            if isinstance(st, ast.For):
                self.store(st.target, self.iter_elem(it), st)
            else:
                self.ev(st.test)
            self.block(st.body)
            e = None if self.dead else dict(self.env)
            for c in self.cont:
                e = self.merge(e, c)
            brks = self.brk
            e = self.merge(before, e)
            self.set_env(e)
            if e == before:
                break
        if isinstance(st, ast.While):
            self.ev(st.test)
        self.brk, self.cont = sb, sc
        forever = isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value
        if forever:
            e = None
        else:
            self.block(st.orelse)
            e = None if self.dead else dict(self.env)
        for b in brks:
            e = self.merge(e, b)
        self.set_env(e)

    def store(self, t, v, st):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                for x in t.elts:
                    self.store(x.value if isinstance(x, ast.Starred) else x, self.iter_elem(v), st)
                return
            for i, x in enumerate(t.elts):
                self.store(x, self.item(v, i), st)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.ev(t.slice)
            e = elem(v)
            for a in b:
                if isinstance(a, tuple) and a[0] == "A":
                    if a[1] and a[1] <= {"I", "s"} and "f" in e:
                        self.T.alarm(st, "store", "a floating-point value is stored in an array of integers and truncated")
                    elif "s" in a[1] and "I" in e:
                        pass
            if isinstance(t.value, ast.Name) and any(isinstance(a, tuple) and a[0] in ("D", "L") for a in b):
                nb = set()
                for a in b:
                    if isinstance(a, tuple) and a[0] == "L":
                        nb.add(("L", join(a[1], v)))
                    elif isinstance(a, tuple) and a[0] == "D" and isinstance(t.slice, ast.Constant):
                        d = dict(a[1])
                        d[t.slice.value] = v
                        nb.add(("D", tuple(sorted(d.items(), key=str))))
                    else:
                        nb.add(a)
                self.env[t.value.id] = frozenset(nb)

    def iter_elem(self, v):
        out = frozenset()
        for a in v:
            if isinstance(a, tuple) and a[0] in ("A", "L"):
                out = join(out, a[1])
            elif isinstance(a, tuple) and a[0] == "T":
                out = join(out, *a[1]) if a[1] else out
            else:
                out = join(out, U)
        return out

    def item(self, v, i):
        out = frozenset()
        for a in v:
            if isinstance(a, tuple) and a[0] == "T" and isinstance(i, int) and -len(a[1]) <= i < len(a[1]):
                out = join(out, a[1][i])
            elif isinstance(a, tuple) and a[0] in ("A", "L"):
                out = join(out, a[1])
            elif isinstance(a, tuple) and a[0] == "T":
                out = join(out, *a[1]) if a[1] else out
            elif isinstance(a, tuple) and a[0] == "D":
                d = dict(a[1])
                out = join(out, d[i]) if i in d else join(out, U)
            elif a == "N":
                continue
            else:
                out = join(out, U)
        return out

    # -- expressions -----------------------------------------------------------------
    def look(self, n):
        if n in self.env:
            return self.env[n]
        u = self.up
        while u is not None:
            if n in u.env:
                return u.env[n]
            u = u.up
        return None

    def ev(self, e, load=False):
        T = self.T
        if isinstance(e, ast.Constant):
            v = e.value
            return B if isinstance(v, bool) else S if isinstance(v, int) else F_ if isinstance(v, (float, complex)) else N if v is None else STR
        if isinstance(e, ast.Name):
            v = self.look(e.id)
            return v if v is not None else self.ext(e)
        if isinstance(e, ast.Attribute):
            q = self.mod.qual(e) if self.rootfree(e) else None
            if q is not None:
                return self.ext(e)
            b = self.ev(e.value)
            return self.attr(e, b)
        if isinstance(e, ast.BinOp):
            return self.op(e, e.op, self.ev(e.left), self.ev(e.right), e.right)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand)
            if isinstance(e.op, ast.Not):
                return B
            return v if not v & B else join(v - B, S)
        if isinstance(e, ast.BoolOp):
            return join(*[self.ev(x) for x in e.values])
        if isinstance(e, ast.Compare):
            vs = [self.ev(e.left)] + [self.ev(c) for c in e.comparators]
            return frozenset([("A", B)]) if any(isarr(v) for v in vs) and not any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in e.ops) else B
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return join(self.ev(e.body), self.ev(e.orelse))
        if isinstance(e, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return frozenset([("L", join(frozenset(), *[self.iter_elem(self.ev(x.value)) if isinstance(x, ast.Starred) else self.ev(x) for x in e.elts]))])
            return frozenset([("T", tuple(self.ev(x) for x in e.elts))])
        if isinstance(e, (ast.List, ast.Set)):
            if not e.elts:
                return frozenset([("L", frozenset())])
            if isinstance(e, ast.List) and not any(isinstance(x, ast.Starred) for x in e.elts):
                return frozenset([("T", tuple(self.ev(x) for x in e.elts))])
            return frozenset([("L", join(frozenset(), *[self.iter_elem(self.ev(x.value)) if isinstance(x, ast.Starred) else self.ev(x) for x in e.elts]))])
        if isinstance(e, ast.Dict):
            d = {}
            for k, x in zip(e.keys, e.values):
                v = self.ev(x)
                if isinstance(k, ast.Constant):
                    d[k.value] = v
            return frozenset([("D", tuple(sorted(d.items(), key=str)))])
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value)
            if isinstance(e.slice, ast.Slice):
                for x in (e.slice.lower, e.slice.upper, e.slice.step):
                    if x is not None:
                        self.ev(x)
                return frozenset(("L", self.iter_elem(frozenset([a]))) if isinstance(a, tuple) and a[0] == "T" else a for a in b)
            if isinstance(e.slice, ast.Tuple) or not isinstance(e.slice, ast.Constant) and not isinstance(e.slice, ast.UnaryOp):
                self.ev(e.slice)
                return self.item(b, None)
            i = None
            try:
                i = ast.literal_eval(e.slice)
            except ValueError:
                pass
            return self.item(b, i)
        if isinstance(e, ast.Lambda):
            return T.fn(e, self.mod, self.scope())
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            saved = dict(self.env)
            one = None
            for g in e.generators:
                it = self.ev(g.iter)
                if len(e.generators) == 1 and len(it) == 1 and not g.ifs and next(iter(it))[0] == "T" and isinstance(e, ast.ListComp):
                    one = next(iter(it))[1]
                    break
                self.store(g.target, self.iter_elem(it), e)
                for c in g.ifs:
                    self.ev(c)
            if one is not None:
                vs = []
                for x in one:
                    self.store(e.generators[0].target, x, e)
                    vs.append(self.ev(e.elt))
                v = frozenset([("T", tuple(vs))])
            else:
                v = frozenset([("L", self.ev(e.elt))])
            self.env.clear()
            self.env.update(saved)
            return v
        if isinstance(e, ast.Call):
            return self.callexp(e)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.store(e.target, v, e)
            return v
        if isinstance(e, ast.JoinedStr):
            return STR
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        return U

    def rootfree(self, e):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name) and self.look(e.id) is None

    def ext(self, e):
        T = self.T
        q = T.resolve(self.mod, self.mod.qual(e), T.mods)
        if q is None:
            return U
        if q.startswith("lamberthub") or q.rpartition(".")[0] in T.mods:
            v = T.glob(q)
            if v is not None:
                return v
        n = q.rpartition(".")[2]
        if q.split(".")[0] in ("numpy", "math") and n in ("pi", "inf", "nan", "e", "Inf", "NaN", "tau", "euler_gamma"):
            return F_
        return frozenset([("X", q)])

    def attr(self, e, b):
        out = frozenset()
        for a in b:
            if isinstance(a, tuple) and a[0] == "A":
                out = join(out, {"shape": frozenset([("L", S)]), "size": S, "ndim": S, "T": frozenset([a]), "real": frozenset([a]), "flat": frozenset([a]),
                                 "dtype": frozenset([("X", "dtype:" + ("int" if a[1] and a[1] <= {"I", "s"} else "float"))])}.get(e.attr, frozenset([("B", e.attr, a)])))
            elif a in ("I", "s", "f", "b"):
                out = join(out, frozenset([a]) if e.attr in ("real", "imag") else frozenset([("B", e.attr, a)]))
            elif isinstance(a, tuple) and a[0] in ("L", "T", "D"):
                out = join(out, frozenset([("B", e.attr, a)]))
            elif isinstance(a, tuple) and a[0] == "X":
                # attribute of an external value
                out = join(out, F_ if a[1].startswith("val:") else frozenset([("X", a[1] + "." + e.attr)]))
            elif a == "N":
                continue
            else:
                out = join(out, U)
        return out

    # -- operators -------------------------------------------------------------------
    def op(self, node, op, l, r, rnode=None):
        T = self.T
        T.nops += 1
        a, b = elem(l), elem(r)
        arr = any(isinstance(x, tuple) and x[0] == "A" for x in l | r)
        seq = any(isinstance(x, tuple) and x[0] in ("T", "L") for x in l | r)
        if "str" in a | b and not arr:
            return STR if "str" in a else U
        if seq and not arr:
            if isinstance(op, ast.Add) and not any(isinstance(x, str) for x in l | r):
                ts = [x for x in l if x[0] == "T"], [x for x in r if x[0] == "T"]
                if len(l) == len(r) == 1 and ts[0] and ts[1]:
                    return frozenset([("T", ts[0][0][1] + ts[1][0][1])])
                return frozenset([("L", join(self.iter_elem(l), self.iter_elem(r)))])
            if isinstance(op, ast.Mult):
                x = l if seq and any(isinstance(y, tuple) for y in l) else r
                return frozenset([("L", self.iter_elem(x))])
            return U
        a, b = a - {"b", "N"} | ({"s"} if "b" in a else set()), b - {"b", "N"} | ({"s"} if "b" in b else set())
        out = set()
        big = "I" in a, "I" in b
        if "U" in a | b:
            out.add("U")
        if "f" in a or "f" in b:
            out.add("f")
        ia, ib = a & {"I", "s"}, b & {"I", "s"}
        if isinstance(op, ast.Div):
            out.add("f")
        elif ia and ib:
            if isinstance(op, (ast.Mult, ast.MatMult)):
                if big[0] and big[1]:
                    T.alarm(node, "product", "product of two integers of the caller (may exceed 64 bits): %s" % short(node))
                out |= {"I"} if any(big) else {"s"}
            elif isinstance(op, ast.Pow):
                neg = rnode is not None and isinstance(rnode, ast.UnaryOp) and isinstance(rnode.op, ast.USub)
                if big[0] and neg:
                    T.alarm(node, "product", "an integer of the caller is raised to a negative power: %s" % short(node))
                elif big[0] and not (isinstance(rnode, ast.Constant) and rnode.value in (0, 1)):
                    T.alarm(node, "product", "power of an integer of the caller (may exceed 64 bits): %s" % short(node))
                if neg:
                    out.add("f")
                else:
                    out |= {"I"} if any(big) else {"s"}
            elif isinstance(op, (ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr, ast.BitXor)):
                if any(big) and not arr:
                    T.alarm(node, "product", "bit operation on an integer of the caller: %s" % short(node))
                out |= {"s"}
            else:
                out |= {"I"} if any(big) else {"s"}
        el = frozenset(out) or frozenset(["U"])
        return frozenset([("A", el)]) if arr else el

    # -- calls --------------------------------------------------------------------------
    def callexp(self, e):
        T = self.T
        f = self.ev(e.func)
        args, star = [], False
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                if len(v) == 1 and next(iter(v))[0] == "T":
                    args += list(next(iter(v))[1])
                else:
                    args += [self.iter_elem(v)] * 3
            else:
                args.append(self.ev(x))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is not None:
                kw[k.arg] = v
            else:
                for a in v:
                    if isinstance(a, tuple) and a[0] == "D":
                        kw.update({n: x for n, x in a[1] if isinstance(n, str)})
        out = frozenset()
        for a in f:
            if isinstance(a, tuple) and a[0] == "F":
                out = join(out, T.call(a[1], args, kw, e))
            elif isinstance(a, tuple) and a[0] == "X":
                out = join(out, self.extcall(e, a[1], args, kw))
            elif isinstance(a, tuple) and a[0] == "B":
                out = join(out, self.method(e, a[1], a[2], args, kw))
            elif a == "N":
                continue
            else:
                for v in args:
                    self.invoke(v)
                T.unk(e, "call of %s" % short(e.func))
                out = join(out, U)
        return out

    def invoke(self, v, args=None):
        """A function handed to unknown code is called with floating-point numbers."""
        out = frozenset()
        for a in v:
            if isinstance(a, tuple) and a[0] == "F":
                n = len(self.T.fns[a[1]].node.args.args)
                out = join(out, self.T.call(a[1], (args or [F_] * n)[:max(n, len(args or []))], {}))
        return out

    def dtype(self, kw, args, pos):
        v = kw.get("dtype", args[pos] if len(args) > pos else None)
        if v is None:
            return None
        for a in v:
            if isinstance(a, tuple) and a[0] == "X":
                n = a[1]
                if n.startswith("dtype:"):
                    return I if n == "dtype:int" else F_
                n = n.rpartition(".")[2]
                return S if n.startswith(("int", "uint")) else B if n.startswith("bool") else F_
        return None

    def extcall(self, e, q, args, kw):
        T = self.T
        n = q.rpartition(".")[2]
        if q.startswith("dtype:"):
            return F_
        top = q.split(".")[0]
        allv = args + list(kw.values())
        arr = any(isarr(v) for v in args)
        w = (lambda v: frozenset([("A", v)])) if arr else (lambda v: v)
        if n in ROOTF:
            extra = []
            for v in kw.get("args", frozenset()):
                if isinstance(v, tuple) and v[0] == "T":
                    extra = list(v[1])
            for v in args[:1] + [kw[k] for k in ("fprime", "fprime2", "f", "func") if k in kw] + args[1:]:
                self.invoke(v, [F_] + extra)
            full = "full_output" in kw
            return frozenset([("T", (F_, frozenset([("X", "val:result")])))]) if full or n == "quad" else join(F_, frozenset([("X", "val:result")]))
        if n in ("zeros", "ones", "empty", "full", "identity", "eye"):
            d = self.dtype(kw, args, {"full": 2, "identity": 1, "eye": 3}.get(n, 1))
            if d is None and n == "full":
                d = elem(args[1]) if len(args) > 1 else F_
            return frozenset([("A", d or F_)])
        if n in ("zeros_like", "ones_like", "empty_like", "full_like"):
            d = self.dtype(kw, args, 2 if n == "full_like" else 1)
            el = d or elem(args[0])
            if el and el <= {"I", "s"} and n == "full_like" and len(args) > 1 and "f" in elem(args[1]):
                T.alarm(e, "store", "a floating-point value is stored in an array of integers and truncated")
            return frozenset([("A", el)])
        if n == "arange":
            return frozenset([("A", elem(args[0]) | (elem(args[1]) if len(args) > 1 else frozenset()))]) if args else U
        if n in ("array", "asarray", "ascontiguousarray", "copy", "asanyarray", "require", "atleast_1d") and top == "numpy":
            d = self.dtype(kw, args, 1)
            if d is not None:
                return frozenset([("A", d)])
            el = elem(args[0]) - {"N"}
            if arr:
                # elements of one list are converted to the widest type; alternatives stay apart
                outs = set()
                for a in args[0]:
                    if isinstance(a, tuple):
                        x = elem(frozenset([a]))
                        definite = a[0] == "T" and any(isinstance(y, frozenset) and y == F_ or isinstance(y, frozenset) and elem(y) == F_ for y in a[1])
                        outs.add(("A", F_ if definite else x))
                return frozenset(outs)
            return frozenset([("A", el)])
        if n == "asfarray":
            return frozenset([("A", F_)])
        if n in PRODF:
            xs = [elem(v) for v in args]
            if sum("I" in x for x in xs) >= 2 or n in ("prod", "cumprod", "square", "power") and xs and "I" in xs[0] and not (n == "power" and len(xs) > 1 and xs[1] <= {"f"}):
                T.alarm(e, "product", "product of integers of the caller (may exceed 64 bits): %s" % short(e))
            el = frozenset(["f"]) if any(x == F_ for x in xs) else frozenset().union(*xs) if xs else U
            return frozenset([("A", el)]) if n in ("cross", "outer", "matmul", "multiply", "square", "cumprod", "power", "kron") and arr else el
        if n in FLOATF or top == "scipy":
            for v in args:
                self.invoke(v)
            return w(F_) if n not in ("norm", "mean", "float", "complex") else frozenset([("A", F_)]) if n == "linspace" else F_
        if n in BOOLF:
            return B
        if n == "int" or n.startswith("int") and top == "numpy" or n.startswith("uint"):
            x = elem(args[0]) if args else S
            return frozenset("I" if y == "I" else "s" for y in x) if x else S
        if n in ("range",):
            return frozenset([("L", S)])
        if n == "enumerate":
            return frozenset([("L", frozenset([("T", (S, self.iter_elem(args[0])))]))])
        if n == "zip":
            if all(len(v) == 1 and next(iter(v))[0] == "T" for v in args) and args:
                return frozenset([("T", tuple(frozenset([("T", t)]) for t in zip(*[next(iter(v))[1] for v in args])))])
            return frozenset([("L", frozenset([("T", tuple(self.iter_elem(v) for v in args))]))])
        if n == "map":
            for v in args[1:]:
                pass
            out = self.apply(args[0], [self.iter_elem(v) for v in args[1:]], e)
            return frozenset([("L", out)])
        if n in ("reversed", "sorted", "list", "tuple", "iter", "set"):
            if not args:
                return frozenset([("L", frozenset())])
            return args[0] if n in ("list", "tuple", "iter") and all(isinstance(a, tuple) and a[0] in ("T", "L") for a in args[0]) else frozenset([("L", self.iter_elem(args[0]))])
        if n in SMALLF:
            if n in ("sign", "round", "ceil", "floor", "trunc", "rint") and args:
                return w(frozenset("f" if y == "f" else "s" if n == "sign" else y for y in elem(args[0])) or S)
            return S
        if n in ("max", "min", "sum", "amax", "amin") or n in SAMEF:
            vs = args[:1] if n in ("clip",) else args
            if n == "where" and len(args) == 3:
                vs = args[1:]
            el = frozenset().union(*[elem(v) for v in vs]) if vs else U
            if n == "clip" and len(args) > 1:
                el = frozenset().union(*[elem(v) for v in args])
            if any(elem(v) == F_ for v in vs) and len(vs) > 1 and n in ("add", "subtract", "maximum", "minimum", "where", "clip"):
                el = F_
            if n == "divmod":
                return frozenset([("T", (el, el))])
            if n in ("max", "min", "sum", "amax", "amin") and "axis" not in kw:
                return el
            return w(el)
        if n == "dict":
            return frozenset([("D", tuple(sorted(kw.items(), key=str)))])
        if n == "partial":
            return U
        if n.endswith(("Error", "Exception", "Warning")) or n in ("print", "warn", "str", "repr", "type", "super", "getattr", "ndarray", "finfo", "errstate", "simplefilter", "catch_warnings", "iinfo"):
            return frozenset([("X", "val:" + n)]) if n in ("finfo", "iinfo") else U
        for v in args:
            self.invoke(v)
        if not q.startswith("val:"):
            T.unk(e, "call of %s" % q)
        return F_ if q.startswith("val:") else U

    def apply(self, f, args, e):
        out = frozenset()
        for a in f:
            if isinstance(a, tuple) and a[0] == "F":
                out = join(out, self.T.call(a[1], args, {}, e))
            elif isinstance(a, tuple) and a[0] == "X":
                out = join(out, self.extcall(e, a[1], args, {}))
            else:
                out = join(out, U)
        return out

    def method(self, e, n, a, args, kw):
        v = frozenset([a])
        if n in ("append", "extend", "insert", "add"):
            if isinstance(e.func.value, ast.Name) and isinstance(a, tuple) and args:
                x = args[-1] if n != "extend" else self.iter_elem(args[-1])
                self.store_list(e.func.value.id, a, x)
            return N
        if n in ("copy", "ravel", "flatten", "squeeze", "reshape", "conj", "conjugate", "transpose", "view", "tolist", "clip", "round"):
            return v
        if n == "astype":
            return frozenset([("A", self.dtype({}, args, 0) or self.dtype(kw, args, 9) or F_)])
        if n in ("sum", "max", "min", "item"):
            return elem(v)
        if n in ("all", "any", "isdisjoint", "startswith", "endswith", "is_integer"):
            return B
        if n in ("dot",):
            xs = elem(v), elem(args[0]) if args else frozenset()
            if "I" in xs[0] and "I" in xs[1]:
                self.T.alarm(e, "product", "product of integers of the caller (may exceed 64 bits): %s" % short(e))
            return F_ if F_ in xs else xs[0] | xs[1]
        if n == "prod" and "I" in elem(v):
            self.T.alarm(e, "product", "product of integers of the caller (may exceed 64 bits): %s" % short(e))
            return I
        if n in ("mean", "std", "var"):
            return F_
        if n in ("argmin", "argmax", "index", "count"):
            return S
        if n == "fill" and isinstance(a, tuple) and a[0] == "A":
            if a[1] and a[1] <= {"I", "s"} and args and "f" in elem(args[0]):
                self.T.alarm(e, "store", "a floating-point value is stored in an array of integers and truncated")
            return N
        if n in ("get", "pop") and isinstance(a, tuple):
            return U if a[0] == "D" else self.iter_elem(v)
        if n in ("items", "values", "keys"):
            return U
        return U

    def store_list(self, name, a, x):
        old = self.env.get(name)
        if old is None:
            return
        new = set()
        for b in old:
            if isinstance(b, tuple) and b[0] == "L":
                new.add(("L", join(b[1], x)))
            elif isinstance(b, tuple) and b[0] == "T":
                new.add(("L", join(x, *b[1])))
            else:
                new.add(b)
        self.env[name] = frozenset(new)


class Scope:
    def __init__(self, env, up):
        self.env, self.up = env, up


def short(e):
    try:
        return ast.unparse(e)[:70]
    except Exception:
        return "?"
