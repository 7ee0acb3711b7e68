"""C16 - compiled and interpreted execution agree."""
import ast
import os

from ..run import *

RULES = {
    "C16.nan": "no function compiled with fast-math flags tests for not-a-number or infinity, compares a value with itself or uses a not-a-number literal (the tests are optimised away)",
    "C16.truth": "no compiled function compares by identity with anything but None",
    "C16.state": "module names a compiled function reads are bound once and never modified (their values are frozen when the function is compiled)",
    "C16.int": "no integer grows without bound in a compiled function (64-bit integers wrap, Python's do not)",
    "C16.call": "a compiled function calls compiled functions, numpy/math functions and compilable builtins only",
    "C16.syntax": "a compiled function uses only constructs whose meaning compilation keeps (no handlers for particular exceptions, no computed exception messages, no generators, no keyword dictionaries)",
    "C16.options": "compilation options do not change the meaning (object mode, automatic parallelisation, numpy division, bounds)",
    "C16.index": "constant and loop indices stay within arrays of known size in compiled functions (which do not check them)",
}
EXPLANATION = ("All functions decorated with numba's jit/njit (aliases resolved through the imports, nested functions and lambdas included) are collected with their options; "
               "their syntax trees are checked for the constructs on which compiled and interpreted execution differ; calls and module names are resolved across modules.")
ASSUMPTIONS = ["differences of rounding and of the order of floating-point operations are outside the property", "a not-a-number or infinity test joined with a range test of the same value in one condition is taken as backed by it (found in jiang.py; the value is finite there for finite inputs)", "zero divisors (ZeroDivisionError when compiled, infinity with numpy scalars) are outside"]
FLOOR = 100
FLOOR_UNITS = 12

BUILTINS = {"abs", "min", "max", "range", "len", "float", "int", "complex", "bool", "enumerate", "zip", "round", "sum", "divmod", "tuple", "print", "ValueError", "RuntimeError",
            "ZeroDivisionError", "OverflowError", "ArithmeticError", "AssertionError", "Exception", "pow", "slice", "list", "sorted", "reversed", "isinstance", "map", "filter", "IndexError", "TypeError"}
NANF = {"isnan", "isinf", "isfinite", "nan_to_num", "isneginf", "isposinf", "nanmin", "nanmax", "nansum", "nanmean", "nanmedian", "isclose_nan", "isreal_nan"}
BADOPT = {"parallel": (True,), "forceobj": (True,), "looplift": (True,), "error_model": ("numpy",), "boundscheck": (True,), "nopython": (False,)}


class Mod:
    def __init__(self, root, rel):
        self.rel = rel
        self.path = os.path.join(root, rel)
        self.tree = ast.parse(open(self.path, encoding="utf-8").read())
        p = rel[4:-3] if rel.startswith("src/") else rel[:-3]
        self.name = p.replace(os.sep, ".")
        self.package = self.name
        if self.name.endswith(".__init__"):
            self.name = self.package = self.name[:-9]
        else:
            self.package = self.name.rpartition(".")[0]
        self.imports, self.defs, self.binds = {}, {}, {}
        for st in ast.walk(self.tree):
            if isinstance(st, ast.Import):
                for a in st.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    p = self.package.split(".")
                    p = p[:len(p) - st.level + 1]
                    base = ".".join(p + ([st.module] if st.module else []))
                for a in st.names:
                    self.imports[a.asname or a.name] = base + "." + a.name
        for st in self.tree.body:
            self.top(st)

    def top(self, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            self.defs[st.name] = st
            self.binds.setdefault(st.name, []).append(st)
        elif isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.binds.setdefault(n.id, []).append(st)
        elif isinstance(st, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
            for b in ast.iter_child_nodes(st):
                if isinstance(b, ast.stmt):
                    self.top(b)
                elif isinstance(b, ast.ExceptHandler):
                    for x in b.body:
                        self.top(x)

    def qual(self, e):
        """Dotted name of an expression with import aliases resolved."""
        if isinstance(e, ast.Name):
            return self.imports.get(e.id, e.id)
        if isinstance(e, ast.Attribute):
            q = self.qual(e.value)
            return q and q + "." + e.attr
        return None


JIT = ("numba.njit", "numba.jit", "numba.core.decorators.njit", "numba.core.decorators.jit", "numba.vectorize", "numba.guvectorize", "numba.cfunc", "numba.stencil")


def load(root):
    mods = {}
    for d, ds, fs in os.walk(os.path.join(root, "src")):
        ds[:] = sorted(x for x in ds if x != "__pycache__")
        for f in sorted(fs):
            if f.endswith(".py"):
                m = Mod(root, os.path.relpath(os.path.join(d, f), root))
                mods[m.name] = m
    return mods


def constof(e):
    try:
        return ast.literal_eval(e)
    except (ValueError, TypeError, SyntaxError):
        return None


def options(m, fn, mods):
    """None when fn is not compiled, else its options."""
    for d in fn.decorator_list:
        c = d.func if isinstance(d, ast.Call) else d
        q = resolve(m, m.qual(c), mods)
        if q in JIT:
            kw = {k.arg: constof(k.value) for k in d.keywords} if isinstance(d, ast.Call) else {}
            return kw
        # a wrapper of the package around jit: partial or function
        if q and q.startswith("lamberthub."):
            mm, nm = mods.get(q.rpartition(".")[0]), q.rpartition(".")[2]
            if mm and nm in mm.binds:
                src = mm.binds[nm][0]
                names = {resolve(mm, mm.qual(x), mods) for x in ast.walk(src) if isinstance(x, (ast.Name, ast.Attribute))}
                if names & set(JIT):
                    kw = {k.arg: constof(k.value) for c in ast.walk(src) if isinstance(c, ast.Call) for k in c.keywords}
                    if isinstance(d, ast.Call):
                        kw.update({k.arg: constof(k.value) for k in d.keywords})
                    return kw
    return None


def resolve(m, q, mods, depth=0):
    """Follow names through the modules of the package; name local to m becomes m.name + name."""
    if q is None or depth > 8:
        return q
    if "." not in q:
        if q in m.binds:
            for st in m.binds[q]:
                if isinstance(st, ast.Assign) and len(m.binds[q]) == 1 and isinstance(st.value, (ast.Name, ast.Attribute)):
                    return resolve(m, m.qual(st.value), mods, depth + 1)
            return m.name + "." + q
        return q
    b, _, n = q.rpartition(".")
    mm = mods.get(b)
    if mm is not None:
        if n in mm.defs:
            return q
        if n in mm.imports:
            return resolve(mm, mm.imports[n], mods, depth + 1)
        if n in mm.binds:
            return resolve(mm, n, mods, depth + 1)
    return q


def compiled(mods):
    """{qualified name: (module, function, options)}; functions compiled by a call jit(f) included."""
    out = {}
    for m in mods.values():
        for n, fn in m.defs.items():
            if isinstance(fn, ast.FunctionDef):
                o = options(m, fn, mods)
                if o is not None:
                    out[m.name + "." + n] = (m, fn, o)
        for c in ast.walk(m.tree):
            f = c.func if isinstance(c, ast.Call) else None
            o = {}
            if isinstance(f, ast.Call):
                o = {k.arg: constof(k.value) for k in f.keywords}
                f = f.func
            if f is not None and resolve(m, m.qual(f), mods) in JIT and isinstance(c, ast.Call) and c.args:
                t = c.args[0]
                o.update({k.arg: constof(k.value) for k in c.keywords})
                if isinstance(t, ast.Name) and t.id in m.defs and isinstance(m.defs[t.id], ast.FunctionDef):
                    out[m.name + "." + t.id] = (m, m.defs[t.id], o)
        # nested functions of interpreted functions
        for fn in ast.walk(m.tree):
            if isinstance(fn, ast.FunctionDef) and fn not in m.defs.values():
                o = options(m, fn, mods)
                if o is not None:
                    out[m.name + ".<nested>." + fn.name + str(fn.lineno)] = (m, fn, o)
    return out


def units(root, tier):
    return sorted({m.rel for m, f, o in compiled(load(root)).values()})


def run_unit(u, root, tier):
    mods = load(root)
    comp = compiled(mods)
    writes = modified(mods)
    out = []
    for q, (m, fn, o) in sorted(comp.items()):
        if m.rel != u:
            continue
        out += Check(m, fn, o, q, mods, comp, writes).run()
    return out


def modified(mods):
    """Qualified module names that some function or module-level statement modifies after their binding."""
    out = {}

    def base(e):
        while isinstance(e, (ast.Subscript, ast.Attribute)):
            e = e.value
        return e

    for m in mods.values():
        for fn in [n for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Module))]:
            body = own(fn)
            loc = locals_of(fn) if not isinstance(fn, ast.Module) else set()
            glob = {n for x in body if isinstance(x, ast.Global) for n in x.names}
            for x in body:
                ts = []
                if isinstance(x, ast.Assign):
                    ts = x.targets
                elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                    ts = [x.target]
                elif isinstance(x, ast.Delete):
                    ts = x.targets
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT and isinstance(base(x.func.value), ast.Name):
                    ts = [ast.Subscript(value=x.func.value, slice=ast.Constant(0), ctx=ast.Store(), lineno=x.lineno)]
                for t in ts:
                    for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        b = base(y)
                        if not isinstance(b, ast.Name):
                            continue
                        n = b.id
                        if isinstance(y, ast.Name):
                            if n in glob or isinstance(fn, ast.Module) and len(m.binds.get(n, ())) > 1:
                                out.setdefault(m.name + "." + n, (m.rel, x.lineno, getattr(fn, "name", "<module>")))
                        elif n not in loc or n in glob:
                            if isinstance(fn, ast.Module) and not isinstance(y, ast.Attribute):
                                # filling a table while the module is imported
                                continue
                            q = resolve(m, m.qual(y.value) if isinstance(y, ast.Attribute) and mods.get(m.qual(y.value) or "") else m.qual(b), mods)
                            if isinstance(y, ast.Attribute) and mods.get(q):
                                q = q + "." + y.attr
                            out.setdefault(q, (m.rel, x.lineno, getattr(fn, "name", "<module>")))
    return out


MUT = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "sort", "reverse", "fill", "put", "itemset", "resize", "add", "discard"}


def own(fn):
    """Nodes of fn without those of nested functions."""
    out, st = [], list(ast.iter_child_nodes(fn))
    while st:
        n = st.pop()
        out.append(n)
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st += ast.iter_child_nodes(n)
    return out


def locals_of(fn):
    a = fn.args
    s = {x.arg for x in a.args + a.posonlyargs + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    for n in own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            s.add(n.id)
        elif isinstance(n, ast.FunctionDef):
            s.add(n.name)
    for n in own(fn):
        if isinstance(n, (ast.Global,)):
            s -= set(n.names)
    return s


class Check:
    def __init__(self, m, fn, o, q, mods, comp, writes):
        self.m, self.fn, self.o, self.q, self.mods, self.comp, self.writes = m, fn, o, q, mods, comp, writes
        self.fast = bool(o.get("fastmath"))
        self.out = []
        self.all = list(ast.walk(fn))
        for d in fn.decorator_list:
            ns = set(ast.walk(d))
            self.all = [x for x in self.all if x not in ns]
        self.locals = set()
        for f in self.all:
            if isinstance(f, (ast.FunctionDef, ast.Lambda)):
                self.locals |= locals_of(f)
            elif isinstance(f, ast.comprehension):
                self.locals |= {n.id for n in ast.walk(f.target) if isinstance(n, ast.Name)}

    def rec(self, rule, bad):
        """bad: list of (node, message)."""
        here = (self.m.rel, self.fn.lineno, self.fn.name)
        if not bad:
            self.out.append(Rec("ok", "C16." + rule, self.fn.name, self.q.rpartition(".")[2], "", here))
        for i, (n, msg) in enumerate(bad[:3]):
            self.out.append(Rec("bad", "C16." + rule, self.fn.name, msg[:80], msg, (self.m.rel, getattr(n, "lineno", self.fn.lineno), self.fn.name)))

    def name(self, e):
        if isinstance(e, ast.Name) and e.id in self.locals:
            return None
        return resolve(self.m, self.m.qual(e), self.mods)

    def run(self):
        for r in ("nan", "truth", "state", "int", "call", "syntax", "options", "index"):
            self.rec(r, getattr(self, "r_" + r)())
        return self.out

    # -- rules --------------------------------------------------------------------
    def isnanlit(self, e):
        q = self.name(e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if q in ("numpy.nan", "math.nan", "numpy.NaN", "numpy.NAN", "cmath.nan"):
            return True
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "float" and e.args and str(constof(e.args[0])).lower().strip("+-") == "nan"

    def r_nan(self):
        bad = []
        if not self.fast:
            return bad
        backed = set()
        for b in self.all:
            if not isinstance(b, ast.BoolOp):
                continue
            mids = {ast.dump(c.comparators[0]) for c in ast.walk(b) if isinstance(c, ast.Compare) and len(c.ops) == 2 and all(isinstance(o, (ast.Lt, ast.LtE)) for o in c.ops)}
            backed |= {id(c) for c in ast.walk(b) if isinstance(c, ast.Call) and len(c.args) == 1 and ast.dump(c.args[0]) in mids}
        for n in self.all:
            if isinstance(n, ast.Call):
                q = self.name(n.func) or (isinstance(n.func, ast.Attribute) and n.func.attr) or ""
                if q.rpartition(".")[2] in ("isfinite", "isinf", "isnan") and id(n) in backed:
                    continue
                if q.rpartition(".")[2] in NANF:
                    bad.append((n, "%s in a function compiled with fast-math" % q))
            if isinstance(n, ast.Compare):
                xs = [n.left] + n.comparators
                for a, o, b in zip(xs, n.ops, xs[1:]):
                    if ast.dump(a) == ast.dump(b) and not isinstance(a, ast.Constant):
                        bad.append((n, "a value compared with itself in a function compiled with fast-math"))
            if self.isnanlit(n):
                bad.append((n, "not-a-number literal in a function compiled with fast-math"))
        return bad

    def r_truth(self):
        bad = []
        for n in self.all:
            if isinstance(n, ast.Compare):
                xs = [n.left] + n.comparators
                for a, o, b in zip(xs, n.ops, xs[1:]):
                    if isinstance(o, (ast.Is, ast.IsNot)) and not any(isinstance(x, ast.Constant) and x.value is None for x in (a, b)):
                        bad.append((n, "identity comparison in a compiled function"))
        return bad

    def r_state(self):
        bad = []
        for n in self.all:
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                bad.append((n, "a compiled function rebinds %s" % ", ".join(n.names)))
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                q = self.name(n)
                if q in self.writes:
                    w = self.writes[q]
                    bad.append((n, "%s is modified at %s:%s but frozen when compiled" % (q, w[0], w[1])))
                if isinstance(n, ast.Name) and q and q.startswith("lamberthub"):
                    b, _, nm = q.rpartition(".")
                    mm = self.mods.get(b)
                    st = mm.binds.get(nm, [None])[0] if mm else None
                    v = getattr(st, "value", None)
                    if isinstance(v, (ast.Dict, ast.Set, ast.DictComp, ast.SetComp)):
                        bad.append((n, "%s is a dictionary or set, which compiled functions cannot read" % q))
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                b = n
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id not in self.locals:
                    bad.append((n, "a compiled function stores into %s" % b.id))
        return bad

    def inttype(self, e, ints):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, int) and not isinstance(e.value, bool)
        if isinstance(e, ast.Name):
            return e.id in ints
        if isinstance(e, ast.UnaryOp):
            return isinstance(e.op, (ast.USub, ast.UAdd, ast.Invert)) and self.inttype(e.operand, ints)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod, ast.Pow, ast.LShift, ast.RShift)):
            return self.inttype(e.left, ints) and self.inttype(e.right, ints)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            return e.func.id in ("int", "len") or e.func.id in ("min", "max", "abs") and bool(e.args) and all(self.inttype(a, ints) for a in e.args)
        return False

    def r_int(self):
        asg = {}
        for n in self.all:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        asg.setdefault(t.id, []).append(n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        vs = n.value.elts if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t.elts) else [None] * len(t.elts)
                        for a, v in zip(t.elts, vs):
                            if isinstance(a, ast.Name):
                                asg.setdefault(a.id, []).append(v)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                asg.setdefault(n.target.id, []).append(ast.BinOp(left=ast.Name(id=n.target.id, ctx=ast.Load()), op=n.op, right=n.value))
            elif isinstance(n, ast.For):
                for t in ast.walk(n.target):
                    if isinstance(t, ast.Name):
                        r = isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and t is n.target
                        asg.setdefault(t.id, []).append(ast.Constant(0) if r else None)
        ints = set(asg)
        while True:
            new = {x for x in ints if all(v is not None and self.inttype(v, ints) for v in asg[x])}
            if new == ints:
                break
            ints = new
        bad = []
        for loop in self.all:
            if not isinstance(loop, (ast.For, ast.While)):
                continue
            for n in ast.walk(loop):
                t = v = None
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    t, v, op = n.target.id, n.value, n.op
                    if t in ints and isinstance(op, (ast.Mult, ast.Pow, ast.LShift)) and not (isinstance(op, ast.Mult) and constof(v) in (1, -1)):
                        bad.append((n, "integer product %s accumulated in a loop of a compiled function" % t))
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ints:
                    t = n.targets[0].id
                    for b in ast.walk(n.value):
                        if isinstance(b, ast.BinOp) and isinstance(b.op, (ast.Mult, ast.Pow, ast.LShift)) and any(isinstance(x, ast.Name) and x.id == t for x in ast.walk(b)) \
                                and not any(constof(x) in (1, -1) for x in (b.left, b.right)):
                            bad.append((n, "integer product %s accumulated in a loop of a compiled function" % t))
        for n in self.all:
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and self.inttype(n.left, ints) and constof(n.left) not in (0, 1, -1) and self.inttype(n.right, ints) and constof(n.right) is None:
                bad.append((n, "integer power with a variable exponent in a compiled function"))
        return bad

    def r_call(self):
        bad = []
        for n in self.all:
            if not isinstance(n, ast.Call):
                continue
            f = n.func
            if isinstance(f, ast.Name) and f.id in self.locals:
                continue
            q = self.name(f)
            if q is None:
                continue
            if "." not in q:
                if q not in BUILTINS and q not in ("isinstance",):
                    bad.append((n, "%s cannot be called from a compiled function" % q))
                continue
            top = q.split(".")[0]
            if top == "lamberthub":
                if q not in self.comp:
                    mm = self.mods.get(q.rpartition(".")[0])
                    if mm and q.rpartition(".")[2] in mm.defs:
                        bad.append((n, "%s is not compiled but called from a compiled function" % q))
            elif top in ("scipy", "time", "random", "os", "sys", "warnings", "logging", "functools", "itertools", "decimal", "fractions"):
                bad.append((n, "%s cannot be called from a compiled function" % q))
        return bad

    def r_syntax(self):
        bad = []
        for n in self.all:
            if isinstance(n, ast.ExceptHandler) and not (n.type is None or isinstance(n.type, ast.Name) and n.type.id == "Exception"):
                bad.append((n, "handler for a particular exception in a compiled function"))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                bad.append((n, "the exception object is used in a compiled function"))
            elif isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.AsyncFor, ast.AsyncWith, ast.ClassDef, ast.Match if hasattr(ast, "Match") else ast.ClassDef)):
                bad.append((n, "%s in a compiled function" % type(n).__name__.lower()))
            elif isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call) and any(not isinstance(a, ast.Constant) for a in n.exc.args):
                bad.append((n, "computed exception message in a compiled function"))
            elif isinstance(n, ast.Raise) and n.cause is not None:
                bad.append((n, "exception cause in a compiled function"))
            elif isinstance(n, ast.Call) and any(k.arg is None for k in n.keywords):
                bad.append((n, "keyword dictionary in a compiled function"))
            elif isinstance(n, ast.arguments) and n.kwarg is not None:
                bad.append((self.fn, "keyword dictionary in a compiled function"))
        return bad

    def r_options(self):
        bad = []
        for k, vs in BADOPT.items():
            if k in self.o and self.o[k] in vs:
                bad.append((self.fn, "compilation option %s=%r" % (k, self.o[k])))
        for n in self.all:
            if isinstance(n, ast.Call) and (self.name(n.func) or "").endswith("numba.prange"):
                bad.append((n, "parallel loop"))
        return bad

    # indices: array sizes and ranges as (symbol, offset)
    def lin(self, e):
        c = constof(e)
        if isinstance(c, int) and not isinstance(c, bool):
            return ("", c)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            for a, b, sw in ((e.left, e.right, False), (e.right, e.left, True)):
                c = constof(b)
                if isinstance(c, int) and not (sw and isinstance(e.op, ast.Sub)):
                    s = self.lin(a)
                    return s and (s[0], s[1] + (c if isinstance(e.op, ast.Add) else -c))
        return (ast.dump(e), 0)

    def r_index(self):
        sizes, stored = {}, {}
        for n in self.all:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stored[n.id] = stored.get(n.id, 0) + 1
        for n in self.all:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and stored.get(n.targets[0].id) == 1:
                v = n.value
                if isinstance(v, ast.Call) and (self.name(v.func) or "") in ("numpy.zeros", "numpy.empty", "numpy.ones") and v.args and not isinstance(v.args[0], ast.Tuple):
                    sizes[n.targets[0].id] = self.lin(v.args[0])
                elif isinstance(v, ast.Call) and (self.name(v.func) or "") == "numpy.array" and v.args and isinstance(v.args[0], (ast.List, ast.Tuple)) and v.args[0].elts \
                        and not any(isinstance(x, (ast.Starred, ast.List, ast.Tuple)) for x in v.args[0].elts):
                    sizes[n.targets[0].id] = ("", len(v.args[0].elts))
                elif isinstance(v, (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in v.elts):
                    sizes[n.targets[0].id] = ("", len(v.elts))
        ivs = {}
        for n in self.all:
            if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and stored.get(n.target.id) == 1 and len(n.iter.args) in (1, 2):
                ivs[n.target.id] = self.lin(n.iter.args[-1])
        bad = []
        for n in self.all:
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in sizes and not isinstance(n.slice, (ast.Slice, ast.Tuple)):
                s = sizes[n.value.id]
                i = self.lin(n.slice)
                if i[0] == "":
                    if s[0] == "" and not -s[1] <= i[1] < s[1]:
                        bad.append((n, "index %d of an array of %d" % (i[1], s[1])))
                    continue
                for v, hi in ivs.items():
                    if i[0] == ast.dump(ast.Name(id=v, ctx=ast.Load())) and s[0] == hi[0] and hi[1] - 1 + i[1] > s[1] - 1:
                        bad.append((n, "index %s runs past the end of %s" % (ast.unparse(n.slice), n.value.id)))
        return bad
