"""Transfer functions for objects outside the repository (NumPy, SciPy, math, builtins)."""
from __future__ import annotations

from fractions import Fraction
import math

from .terms import INF, NONNEG, POS, Rng, T
from . import interp as N


def _lit(v):
    if isinstance(v, T):
        if v.op == "const":
            return v.val
    return None


def _els(I, v, st):
    """Elements of a known-length sequence value."""
    v = I.resolve(v, st)
    if isinstance(v, N.PyTuple):
        return v.elems
    if isinstance(v, N.PyRange):
        r = I.unroll(v, 64)
        return r
    if isinstance(v, T) and v.op == "array" and v.args:
        return list(v.args)
    return None


def ubool(I, t, all_=True):
    """Reduce an element-wise comparison to a bool (np.all / np.any)."""
    U = I.U
    if t.op == "allbool":
        return t.args[0]
    if t.op == "gamma":
        return U.ITE(t.args[0], ubool(I, t.args[1], all_), ubool(I, t.args[2], all_))
    if t.op == "vnot":
        return U.NOT(ubool(I, t.args[0], not all_))
    if t.kind == "vec":  # truth of numbers: different from zero
        z = I.compare("Eq", t, U.const(0), None, None)
        return U.NOT(ubool(I, z, True)) if not all_ else U.mk("all", (U.mk("vnot", (z,), kind="arr"),), kind="bool")
    if t.op == "veq0" and t.args[0].op == "array" and all(U.isnum(x) for x in t.args[0].args):
        z = [x.val == 0 for x in t.args[0].args]
        return U.const(all(z) if all_ else any(z))
    if t.kind == "bool":
        return t
    if t.op in ("veq", "veq0") and all_:
        if t.op == "veq0":
            v = t.args[0]
            if v.nonnull:
                return U.FALSE
    if t.op in ("vand", "vor") and (t.op == "vand") == all_:
        parts = [ubool(I, x, all_) for x in t.args]
        return U.AND(*parts) if all_ else U.OR(*parts)
    if t.op in ("isfinite", "isnan", "isinf") and t.args:
        v = t.args[0]
        if _finite(I, v):
            return U.const(t.op == "isfinite")  # inputs are finite unless the scenario says otherwise
        if getattr(I, "nonfinite", None):
            if t.op == "isfinite" and all_ and _nonfinite(I, v):
                return U.FALSE
            if not all_ and v.op == "input" and I.nonfinite.get(v.val, "?")[0] == t.op[2:]:
                return U.TRUE
    if t.op == "vlt" and all_ and t.args[1].op == "inf" and t.args[0].op in ("abs", "norm"):
        return U.TRUE if _finite(I, t.args[0]) else U.FALSE if _nonfinite(I, t.args[0]) else U.mk("all", (t,), kind="bool")
    return U.mk("all" if all_ else "any", (t,), kind="bool")


_CARRY = {"add", "mul", "neg", "abs", "norm", "dot", "sum", "sqrt", "sub"}


def _nonfinite(I, t, d=0):
    """Is a non-finite component of an input sure to make this value non-finite?"""
    if t.op == "input":
        return t.val in (getattr(I, "nonfinite", None) or ())
    if t.op in ("nan", "inf"):
        return True
    if not getattr(I, "nonfinite", None):
        return False
    if t.op in ("max", "min") and d < 12:
        return any(x.op == "nan" or t.op == "max" and x.op == "inf" or x.op == "max" and _nonfinite(I, x, d + 1) for x in t.args)
    return d < 12 and t.op in _CARRY and any(_nonfinite(I, x, d + 1) for x in t.args)


def _finite(I, t, d=0):
    """Is the value finite whenever the inputs are (no division, no function with a pole)?"""
    if t.op == "input":
        return t.val not in (getattr(I, "nonfinite", None) or ())
    if t.op == "const":
        return True
    return d < 12 and t.op in (_CARRY - {"sqrt"}) | {"comp", "max", "min", "vmax", "vmin", "array"} and bool(t.args) and \
        all(_finite(I, x, d + 1) for x in t.args)


def scalar_fn(I, name, args, node):
    """Apply an element-wise function, distributing over explicit small arrays."""
    U = I.U
    a = args[0]
    if a.op == "array":
        if a.val == "mat":
            return I.mk_mat([[scalar_fn(I, name, (z,) + args[1:], node) for z in r.args] for r in a.args])
        return I.mk_arr([scalar_fn(I, name, (z,) + args[1:], node) for z in a.args])
    k = a.kind
    if name in ("isfinite", "isnan", "isinf"):
        if a.op == "const":
            return U.const(name == "isfinite")
        if a.op == "inf" or (a.op == "neg" and a.args[0].op == "inf"):
            return U.const(name == "isinf")
        if a.op == "nan":
            return U.const(name == "isnan")
        if name == "isfinite" and k not in ("vec", "arr", "mat") and getattr(I, "nonfinite", None) and _nonfinite(I, a):
            return U.FALSE
        if k not in ("vec", "arr", "mat") and _finite(I, a):
            return U.const(name == "isfinite")
        return U.mk(name, args, kind="bool" if k not in ("vec", "arr", "mat") else "arr")
    if name == "abs":
        kind = "real" if k == "complex" else k
    elif name == "sign":
        kind = k if k in ("vec", "arr", "mat", "complex") else "real"
        if k in ("real", "int"):
            if a.rng.pos():
                return U.const(1.0)
            if a.rng.neg():
                return U.const(-1.0)
    elif name in ("factorial",):
        kind = "int" if k == "int" else "real"
        if U.isnum(a) and a.val.denominator == 1 and 0 <= a.val <= 170:
            return U.const(math.factorial(int(a.val)))
    elif name == "gammafn":
        if U.isnum(a) and a.val.denominator == 1 and 1 <= a.val <= 170:
            return U.num(Fraction(math.factorial(int(a.val) - 1)), "real")
        kind = "real"
    elif name in ("floor", "ceil", "trunc", "round"):
        kind = "int" if name == "round" else "real"
    else:
        kind = "real" if k in ("int", "bool", "npbool") else k
    if name == "square":
        return I.arith("mul", a, a, node)
    if name in ("deg2rad", "radians"):
        return I.arith("div", I.arith("mul", a, U.PI, node), U.const(180), node)
    if name in ("rad2deg", "degrees"):
        return I.arith("div", I.arith("mul", a, U.const(180), node), U.PI, node)
    if name == "sqrt" and U.isnum(a) and a.val >= 0:
        r = math.isqrt(a.val.numerator), math.isqrt(a.val.denominator)
        if r[0] ** 2 == a.val.numerator and r[1] ** 2 == a.val.denominator:
            return U.num(Fraction(r[0], r[1]), "real")
    if U.isnum(a) and a.val == 0 and name in ("sin", "sinh", "tan", "tanh", "arcsin", "arctan", "arcsinh", "arctanh"):
        return U.num(Fraction(0), "real")
    if U.isnum(a) and a.val == 0 and name in ("cos", "cosh", "exp"):
        return U.num(Fraction(1), "real")
    return U.mk(name, args, kind=kind)


def mutate_out(I, kw, node):
    o = kw.get("out")
    if isinstance(o, T) and o.kind != "none":
        I.check_mutation(o, node, "out= argument")


def call_ext(I, q, args, kw, st, node):
    U = I.U
    h = I.ext_handlers.get(q)
    if h is not None:
        r = h(I, q, args, kw, st, node)
        if r is not None:
            return r
    mod, _, name = q.rpartition(".")
    args = [I.resolve(a, st) for a in args]
    kw = {k: I.resolve(v, st) for k, v in kw.items()}
    if any(q.startswith(p) for p in N.IMPURE_EXT_PREFIX):
        I.effect("impure", q, node)
    mutate_out(I, kw, node)
    if mod == "builtins":
        r = builtin(I, name, args, kw, st, node)
        if r is not None:
            return r
    if q.startswith("time."):
        if name == "sleep":
            I.effect("impure", q, node)
            return U.NONE
        I.counter += 1
        return U.mk("clock", (), val=(I.site(node), tuple(I.callsites())), kind="real")
    if mod in N.MATHMODS or mod in ("numpy.linalg", "numpy.lib.scimath"):
        r = mathfn(I, mod, name, args, kw, st, node)
        if r is not None:
            return r
    if mod == "scipy.optimize" or mod.startswith("scipy.optimize."):
        r = optimize(I, name, args, kw, st, node)
        if r is not None:
            return r
    if mod == "functools":
        if name == "partial" and args:
            return N.PyPartial(args[0], args[1:], kw)
        if name == "reduce" and len(args) >= 2:
            els = _els(I, args[1], st)
            if els is not None:
                acc = args[2] if len(args) > 2 else els[0]
                for x in (els if len(args) > 2 else els[1:]):
                    acc = I.call(args[0], [acc, x], {}, st, node)
                return acc
        if name in ("wraps", "update_wrapper", "lru_cache", "cache", "total_ordering"):
            if name in ("lru_cache", "cache"):
                I.effect("cache", q, node)
            if name in ("lru_cache", "cache") and args and isinstance(args[0], N.PyFunc):
                return args[0]
            return N.PyExt("identity")
    if q == "identity":
        return args[0] if args else U.NONE
    if mod == "operator":
        b = {"add": "add", "sub": "sub", "mul": "mul", "truediv": "div", "pow": "pow", "mod": "mod", "matmul": "matmul"}.get(name)
        if b and len(args) == 2:
            return I.binop(b, args[0], args[1], st, node)
        c = {"lt": "Lt", "gt": "Gt", "le": "LtE", "ge": "GtE", "eq": "Eq", "ne": "NotEq", "is_": "Is", "is_not": "IsNot"}.get(name)
        if c and len(args) == 2:
            return I.compare(c, args[0], args[1], st, node)
        if name == "neg":
            t = I.term(args[0], node)
            return U.mk("neg", (t,), kind=t.kind)
    if q.startswith("numba."):
        # njit(f) / njit(**options)
        if args and isinstance(args[0], N.PyFunc):
            kws = {k: (_lit(v) if isinstance(v, T) else True) for k, v in kw.items()}
            args[0].decos.append((q, kws))
            return args[0]
        if name == "prange":
            return N.PyRange([I.term(a, node) for a in args])
        kws = {k: (_lit(v) if isinstance(v, T) else True) for k, v in kw.items()}
        return _NjitFactory(q, kws)
    if name in N.EXC_PARENTS or name == "LinAlgError":
        return N.PyExc(name, args)
    if mod == "itertools" and name in ("chain", "product", "repeat", "islice"):
        if name == "chain":
            out = []
            for a in args:
                e = _els(I, a, st)
                if e is None:
                    break
                out += e
            else:
                return N.PyTuple(out, "list")
    if mod in ("collections",) and name == "namedtuple":
        return N.PyExt("builtins.tuple_of")
    if q == "builtins.tuple_of":
        return N.PyTuple(list(args) + list(kw.values()))
    if not any(q.startswith(p) for p in N.PURE_EXT_PREFIX):
        I.effect("unknown-ext", q, node)
    # a callback handed to unknown code is still analysed once, on opaque arguments
    for i, a in enumerate(args):
        if isinstance(a, N.PyFunc):
            n = len(a.node.args.args)
            ph = [U.mk("opaque", (), val=("cbarg", I.site(node), i, k), kind="real") for k in range(n)]
            try:
                I.call(a, ph, {}, N.State(dict(st.env), st.pc), node)
            except N.Dead:
                pass
    ts = [I.term(a, node) for a in args] + [I.term(v, node) for _, v in sorted(kw.items())]
    return U.mk("ext:" + q, ts, val=tuple(sorted(kw)), kind="any")


class _NjitFactory(N.PyExt):
    def __init__(self, q, kws):
        super().__init__("identity")
        self.kws = kws


def mathfn(I, mod, name, args, kw, st, node):
    U = I.U
    T_ = lambda i: I.term(args[i], node)
    if mod == "numpy.linalg":
        if name == "norm" and args:
            a = args[0]
            if isinstance(a, N.PyTuple):
                a = I.mk_arr([I.term(x, node) for x in a.elems])
            t = I.term(a, node)
            if len(args) > 1 or any(k in ("axis", "ord") and not (isinstance(v, T) and v.kind == "none") for k, v in kw.items()):
                return U.mk("ext:numpy.linalg.norm", [t] + [I.term(x, node) for x in args[1:]] + [I.term(v, node) for v in kw.values()],
                            val=tuple(sorted(kw)), kind="any")
            return norm(I, t)
        return None
    if name in N.UNARY and len(args) == 1:
        a = args[0]
        if isinstance(a, N.PyTuple):
            a = I.mk_arr([I.term(x, node) for x in a.elems])
        t = I.term(a, node)
        if t.kind in ("str", "none"):
            I.add_raise(st, st.pc, "TypeError", node, "%s of %s" % (name, t.kind), why="type")
            raise N.Dead()
        if t.op == "gamma" and not (kw.get("out") or kw.get("where")) and False:
            pass
        return scalar_fn(I, N.UNARY[name], (t,), node)
    if name in N.BINARY and len(args) >= 2:
        op = N.BINARY[name]
        x, y = T_(0), T_(1)
        if op in ("add", "sub", "mul", "div", "pow", "matmul", "mod"):
            return I.arith(op, x, y, node)
        if op in ("max", "min") and all(z.kind in ("real", "int") for z in (x, y)):
            return U.mk(op, (x, y), kind=N.join_kind(x.kind, y.kind))
        k = "real"
        for z in (x, y):
            if z.kind in ("vec", "arr", "mat"):
                k = z.kind
        return U.mk(op, (x, y), kind=k)
    if name in ("asarray", "ascontiguousarray", "asanyarray", "atleast_1d", "ravel", "squeeze", "require", "asfarray",
                "broadcast_to", "reshape", "transpose", "view"):
        a = to_array(I, args[0], "view", node, shape_op=name, st=st)
        if name == "reshape" and a.kind == "vec" and not _keeps3(U, I, args[1:] or [kw.get("shape", kw.get("newshape"))]):
            return U.mk("reshaped", (a,), kind="mat")
        return a
    if name == "atleast_2d" and len(args) == 1 and T_(0).kind == "vec":
        return U.mk("reshaped", (T_(0),), kind="mat")
    if name in ("array", "copy"):
        cp = kw.get("copy")
        if isinstance(cp, T) and cp.op == "const" and cp.val is not True:
            return to_array(I, args[0], "view", node, st=st)
        return to_array(I, args[0], "copy", node, st=st)
    if name in ("float64", "float_", "double", "longdouble", "float32", "float16"):
        if name in ("float32", "float16"):
            return U.mk(name, (T_(0),), kind="real")
        t = T_(0)
        if t.kind in ("real", "int"):
            return U.num(t.val, "real") if U.isnum(t) else (t if t.kind == "real" else U.mk("float", (t,), kind="real"))
        return U.mk("float", (t,), kind="real")
    if name in ("complex128", "cdouble", "complex_"):
        t = T_(0)
        return t if t.kind == "complex" else U.mk("complex", (t,), kind="complex")
    if name in ("int64", "int32", "intp"):
        t = T_(0)
        return t if t.kind == "int" else U.mk("int", (t,), kind="int")
    if name in ("bool_", "bool"):
        return I.truth(args[0], st, node)
    if name in ("zeros", "empty", "ones", "full", "zeros_like", "empty_like", "ones_like", "full_like"):
        n = I.resolve(args[0], st)
        fill = U.const(0.0) if name[0] in "ze" else (U.const(1.0) if name[0] == "o" else T_(1))
        if "like" not in name:
            if isinstance(n, N.PyTuple) and len(n.elems) == 1:
                n = n.elems[0]
            if isinstance(n, T) and U.isnum(n) and 0 < n.val <= 8:
                cplx = isinstance(kw.get("dtype"), N.PyExt) and "complex" in kw["dtype"].q
                f = U.mk("complex", (fill,), kind="complex") if cplx else fill
                return I.mk_arr([f] * int(n.val))
            if isinstance(n, N.PyTuple) and len(n.elems) == 2 and all(isinstance(x, T) and U.isnum(x) and 0 < x.val <= 4 for x in n.elems):
                return I.mk_mat([[fill] * int(n.elems[1].val)] * int(n.elems[0].val))
        cplx = isinstance(kw.get("dtype"), N.PyExt) and "complex" in kw["dtype"].q
        return U.mk("newarr", (I.term(n, node), fill), val="complex" if cplx else None, kind="arr")
    if name in ("eye", "identity"):
        n = T_(0)
        if U.isnum(n) and n.val <= 4:
            n = int(n.val)
            return I.mk_mat([[U.const(1.0 if i == j else 0.0) for j in range(n)] for i in range(n)])
    if name == "linspace":
        return U.mk("linspace", [I.term(a, node) for a in args], kind="arr")
    if name in ("dot", "vdot", "inner") and len(args) == 2:
        return dot(I, to_array(I, args[0], "view", node, st=st), to_array(I, args[1], "view", node, st=st), node)
    if name == "matmul" and len(args) == 2:
        return I.arith("matmul", T_(0), T_(1), node)
    if name == "cross" and len(args) == 2:
        return cross(I, to_array(I, args[0], "view", node, st=st), to_array(I, args[1], "view", node, st=st), node)
    if name in ("all", "any", "alltrue", "sometrue"):
        a = args[0]
        al = name in ("all", "alltrue")
        els = _els(I, a, st)
        if els is not None:
            ts = [I.truth(x, st, node) for x in els]
            return U.AND(*ts) if al else U.OR(*ts)
        if isinstance(a, N.PySummary):
            return U.mk("all" if al else "any", (I.term(a, node),), kind="bool")
        return ubool(I, T_(0), al)
    if name in ("equal", "not_equal", "less", "greater", "less_equal", "greater_equal") and len(args) == 2:
        c = {"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "greater": "Gt", "less_equal": "LtE", "greater_equal": "GtE"}[name]
        return I.compare(c, args[0], args[1], st, node)
    if name in ("array_equal", "array_equiv"):
        x, y = T_(0), T_(1)
        if x.kind not in ("vec", "arr", "mat") and y.kind not in ("vec", "arr", "mat"):
            return I.compare("Eq", x, y, st, node)
        r = I.compare("Eq", x, y, st, node)
        return ubool(I, r, True) if isinstance(r, T) and r.kind == "arr" else r
    if name in ("logical_and", "logical_or", "logical_not") and any(x.kind in ("arr", "vec") and x.op != "array" for x in map(T_, range(len(args)))):
        if name == "logical_not":
            return U.mk("vnot", (T_(0),), kind="arr")
        return U.mk("vand" if name == "logical_and" else "vor", (T_(0), T_(1)), kind="arr")
    if name in ("logical_and", "logical_or"):
        x, y = I.truth(args[0], st, node), I.truth(args[1], st, node)
        return U.AND(x, y) if name.endswith("and") else U.OR(x, y)
    if name == "logical_not":
        return U.NOT(I.truth(args[0], st, node))
    if name in ("isclose", "allclose"):
        x, y = T_(0), T_(1)
        rt = kw["rtol"] if "rtol" in kw else (args[2] if len(args) > 2 else None)
        at = kw["atol"] if "atol" in kw else (args[3] if len(args) > 3 else None)
        if mod == "math":
            rt = kw.get("rel_tol", U.const(1e-9))
            at = kw.get("abs_tol", U.const(0.0))
            rt, at = I.term(rt, node), I.term(at, node)
            d = U.mk("abs", (I.arith("sub", x, y, node),), kind="real")
            b = U.mk("max", (I.arith("mul", rt, U.mk("max", (scalar_fn(I, "abs", (x,), node), scalar_fn(I, "abs", (y,), node)), kind="real"), node), at), kind="real")
            return U.NOT(U.mk("lt", (b, d), kind="bool"))
        rt = I.term(rt, node) if rt is not None else U.const(1e-5)
        at = I.term(at, node) if at is not None else U.const(1e-8)
        if x.kind in ("vec", "arr", "mat") or y.kind in ("vec", "arr", "mat"):
            t = U.mk("visclose", (x, y, rt, at), kind="arr")
            return ubool(I, t, True) if name == "allclose" else t
        # |x-y| <= atol + rtol*|y|  (false on NaN)
        d = scalar_fn(I, "abs", (I.arith("sub", x, y, node),), node)
        b = I.arith("add", at, I.arith("mul", rt, scalar_fn(I, "abs", (y,), node), node), node)
        return U.NOT(U.mk("lt", (b, d), kind="bool"))
    if name in ("sum", "nansum", "fsum", "prod"):
        els = _els(I, args[0], st)
        if els is not None and els:
            acc = I.term(els[0], node)
            for x in els[1:]:
                acc = I.arith("mul" if name == "prod" else "add", acc, I.term(x, node), node)
            return acc
        return U.mk(name, (T_(0),), kind="real")
    if name in ("max", "min", "amax", "amin"):
        els = _els(I, args[0], st) if len(args) == 1 else args
        op = "max" if "max" in name else "min"
        if not els and len(args) == 1 and T_(0).kind == "vec":
            els = I.elements(T_(0), 3, st, node)
        if els:
            return minmax(I, op, els, st, node)
        return U.mk("red" + op, (T_(0),), kind="real")
    if name == "clip" and len(args) == 3:
        x, lo, hi = T_(0), T_(1), T_(2)
        return U.mk("min", (U.mk("max", (x, lo), kind="real"), hi), kind="real")
    if name == "finfo":
        return N.PyExt("numpy.finfo()")
    if name == "where" and len(args) == 3:
        c = I.truth(args[0], st, node)
        return I.merge_val(c, args[1], args[2])
    if name == "isscalar":
        return U.const(T_(0).kind not in ("vec", "arr", "mat"))
    if name in ("real", "imag", "conj", "conjugate"):
        return I.getattr(T_(0), name, st, node) if name in ("real", "imag") else T_(0)
    if name in ("outer", "einsum", "tensordot", "concatenate", "stack", "vstack", "hstack", "column_stack", "nan_to_num", "roll",
                "argmax", "argmin", "cumsum", "diff", "trapz", "mean", "std", "arange", "size", "shape", "ndim", "count_nonzero",
                "flip", "argsort", "sort", "unique", "angle", "signbit", "nextafter", "spacing", "ldexp", "frexp", "modf", "erf",
                "hyp2f1", "ellipk", "lgamma", "gcd", "comb", "perm", "isqrt", "dist"):
        if name in ("vstack", "stack") and isinstance(args[0], N.PyTuple):
            rows = [I.term(x, node) for x in args[0].elems]
            if all(r.op == "array" for r in rows):
                return I.mk_mat([list(r.args) for r in rows])
        k = "real" if name in ("mean", "std", "signbit", "nextafter", "spacing", "hyp2f1", "trapz", "comb") else "any"
        if name in ("shape", "size", "ndim") and len(args) == 1 and not kw and T_(0).kind in ("vec", "arr", "mat"):
            return I.getattr(T_(0), name, st, node)
        if name == "count_nonzero" and len(args) == 1 and T_(0).kind == "vec":
            acc = U.const(0)
            for x in I.elements(T_(0), 3, st, node):
                acc = I.arith("add", acc, U.ITE(I.compare("Eq", x, U.const(0), st, node), U.const(0), U.const(1)), node)
            return acc
        return U.mk("ext:numpy." + name, [I.term(a, node) for a in args] + [I.term(v, node) for _, v in sorted(kw.items())],
                    val=tuple(sorted(kw)), kind=k)
    if name in ("fill_diagonal", "copyto", "put", "place", "putmask", "shuffle"):
        if isinstance(args[0], T):
            I.check_mutation(args[0], node, "in-place %s" % name)
        return U.NONE
    if name in ("errstate",):
        return N.PyExt("numpy.errstate()")
    return None


def norm(I, t):
    U = I.U
    if t.op == "array" and t.args and t.val == "vec":
        acc = None
        for x in t.args:
            m = I.arith("mul", x, x, None)
            acc = m if acc is None else I.arith("add", acc, m, None)
        return scalar_fn(I, "sqrt", (acc,), None)
    return U.mk("norm", (t,), kind="real")


def strip_view(t):
    return t


def dot(I, x, y, node):
    U = I.U
    if x.op == "array" and y.op == "array":
        r = I.expand("matmul", x, y, node)
        if r is not None:
            return r
    if x.kind in ("vec",) and y.kind in ("vec",):
        return U.mk("dot", (x, y), kind="real")
    if x.kind == "mat" or y.kind == "mat":
        return I.arith("matmul", x, y, node)
    if x.kind in ("real", "int") and y.kind in ("real", "int"):
        return I.arith("mul", x, y, node)
    return U.mk("dot", (x, y), kind="real")


def cross(I, x, y, node):
    U = I.U
    if x.op == "array" and y.op == "array" and len(x.args) == 3 and len(y.args) == 3 and x.val == "vec" and y.val == "vec":
        a, b = x.args, y.args
        f = lambda i, j: I.arith("sub", I.arith("mul", a[i], b[j], node), I.arith("mul", a[j], b[i], node), node)
        return I.mk_arr([f(1, 2), f(2, 0), f(0, 1)])
    return U.mk("cross", (x, y), kind="vec")


def _keeps3(U, I, args):
    """A reshape of three numbers that leaves a one-dimensional array (or an unknown shape)."""
    if len(args) == 1 and isinstance(args[0], N.PyTuple):
        args = args[0].elems
    return not all(isinstance(x, T) and U.isnum(x) for x in args) or len(args) == 1


def to_array(I, v, mode, node, shape_op=None, st=None):
    U = I.U
    if st is not None:
        v = I.resolve(v, st)
    if isinstance(v, N.PyTuple):
        els = [I.resolve(x, st) if st is not None else x for x in v.elems]
        if els and all(isinstance(x, N.PyTuple) or (isinstance(x, T) and x.op == "array") for x in els):
            rows = [[I.term(y, node) for y in (x.elems if isinstance(x, N.PyTuple) else x.args)] for x in els]
            return I.mk_mat(rows)
        if els and all(isinstance(x, T) and x.kind in ("vec",) for x in els):
            return U.mk("stackrows", els, kind="mat")
        return I.mk_arr([I.term(x, node) for x in els])
    if isinstance(v, N.PySummary):
        return U.mk("packarr", (I.term(v, node),), kind="arr")
    t = I.term(v, node)
    if t.kind in ("real", "int", "complex", "bool"):
        return t
    if t.op == "array" and mode == "copy":
        return t
    return U.mk(mode, (t,), kind=t.kind if shape_op not in ("reshape", "transpose", "broadcast_to") or t.kind == "vec" else "any")


def minmax(I, op, els, st, node):
    """Python max/min or reductions over a known sequence."""
    U = I.U
    ts = []
    for x in els:
        t = I.term(I.resolve(x, st), node)
        if t.kind == "none":
            I.add_raise(st, st.pc, "TypeError", node, "%s of None" % op, why="type")
            raise N.Dead()
        ts.append(t)
    acc = ts[0]
    for t in ts[1:]:
        acc = U.mk(op, (acc, t), kind=N.join_kind(acc.kind, t.kind))
    return acc


def builtin(I, name, args, kw, st, node):
    U = I.U
    t0 = (lambda: I.term(args[0], node))
    if name == "range":
        return N.PyRange([I.term(a, node) for a in args])
    if name in ("zip", "enumerate"):
        parts = [I.resolve(a, st) for a in args]
        if name == "enumerate":
            parts = parts[:1]
        seqs = [I.unroll(p, 64) if not (isinstance(p, T) and p.kind not in ("vec",) and p.op != "array") else None for p in parts]
        if all(s is not None for s in seqs):
            n = min(len(s) for s in seqs)
            if name == "enumerate":
                start = int(args[1].val) if len(args) > 1 and U.isnum(args[1]) else 0
                return N.PyTuple([N.PyTuple([U.const(i + start), seqs[0][i]]) for i in range(n)], "list")
            return N.PyTuple([N.PyTuple([s[i] for s in seqs]) for i in range(n)], "list")
        return N.PyZip(parts, enum=name == "enumerate")
    if name == "reversed":
        a = args[0]
        els = I.unroll(a, 64)
        if els is not None:
            return N.PyTuple(list(reversed(els)), "list")
        if isinstance(a, N.PyRange):
            return N.PySummary([U.mk("opaque", (), val=("revidx", I.site(node), tuple(I.callsites())), kind="int")], ("rev", I.site(node)))
        return a if isinstance(a, (N.PySummary, N.PyZip)) else N.PySummary([], ("rev", I.site(node)))
    if name == "len":
        a = args[0]
        if isinstance(a, N.PyTuple):
            return U.const(len(a.elems))
        if isinstance(a, N.PyDict):
            return U.const(len(a.items))
        if isinstance(a, T):
            if a.op == "array":
                return U.const(len(a.args))
            if a.op == "linspace" and len(a.args) > 2 and U.isnum(a.args[2]):
                return a.args[2]
            sh = getattr(I, "shapes", {}).get(a.val if a.op == "input" else None)
            if sh is not None:
                if not sh:
                    I.add_raise(st, st.pc, "TypeError", node, "len of 0-d", why="type")
                    raise N.Dead()
                return U.const(sh[0])
            if a.kind == "vec":
                return U.const(3)
        return U.mk("len", (I.term(a, node),), kind="int")
    if name == "abs":
        return scalar_fn(I, "abs", (t0(),), node)
    if name in ("max", "min"):
        els = args if len(args) > 1 else _els(I, args[0], st)
        if els:
            return minmax(I, name, els, st, node)
        return U.mk(name, (t0(),), kind="real")
    if name == "int":
        t = t0()
        if t.kind == "int":
            return t
        if t.kind == "bool":
            return U.mk("gamma", (t, U.const(1), U.const(0)), kind="int")
        if U.isnum(t):
            return U.const(int(t.val))
        return U.mk("int", (t,), kind="int")
    if name == "float":
        t = t0()
        if t.op == "const" and t.kind == "str":
            try:
                return U.const(float(t.val))
            except ValueError:
                return None
        if U.isnum(t):
            return U.num(t.val, "real")
        if t.kind == "bool":
            return U.mk("gamma", (t, U.const(1.0), U.const(0.0)), kind="real")
        return t if t.kind == "real" else U.mk("float", (t,), kind="real")
    if name == "complex":
        if len(args) == 2:
            j = U.const(1j)
            return I.arith("add", U.mk("complex", (t0(),), kind="complex"), I.arith("mul", j, I.term(args[1], node), node), node)
        t = t0()
        return t if t.kind == "complex" else U.mk("complex", (t,), kind="complex")
    if name == "bool":
        return I.truth(args[0], st, node) if args else U.FALSE
    if name == "round":
        t = t0()
        if U.isnum(t) and t.kind == "int":
            return t
        return U.mk("round", [I.term(a, node) for a in args], kind="real" if len(args) > 1 else "int")
    if name == "pow":
        return I.binop("pow", args[0], args[1], st, node)
    if name == "divmod":
        return N.PyTuple([I.binop("floordiv", args[0], args[1], st, node), I.binop("mod", args[0], args[1], st, node)])
    if name == "sum":
        els = _els(I, args[0], st)
        if els is not None:
            acc = args[1] if len(args) > 1 else None
            for x in els:
                acc = x if acc is None else I.binop("add", acc, x, st, node)
            return acc if acc is not None else U.const(0)
        return U.mk("sum", (t0(),), kind="real")
    if name in ("all", "any"):
        els = _els(I, args[0], st)
        if els is not None:
            ts = [I.truth(x, st, node) for x in els]
            return U.AND(*ts) if name == "all" else U.OR(*ts)
        t = t0()
        if t.kind == "arr":
            return ubool(I, t, name == "all")
        return U.mk(name, (t,), kind="bool")
    if name in ("list", "tuple", "set", "frozenset", "iter", "sorted"):
        if not args:
            return N.PyTuple([], name if name != "iter" else "list")
        a = args[0]
        els = I.unroll(a, 64)
        if els is not None and not (isinstance(a, T) and a.kind == "vec"):
            if name == "sorted":
                if len(els) == 2:
                    x, y = [I.term(e, node) for e in els]
                    return N.PyTuple([U.mk("min", (x, y), kind="real"), U.mk("max", (x, y), kind="real")], "list")
                return N.PyTuple([U.mk("sorted", [I.term(e, node) for e in els], val=i) for i in range(len(els))], "list")
            return N.PyTuple(els, "tuple" if name == "tuple" else "list")
        if els is not None:
            return N.PyTuple(els, "tuple" if name == "tuple" else "list")
        if isinstance(a, (N.PySummary, N.PyZip)):
            return a
        return N.PySummary([t0()] if isinstance(a, T) else [], (name, I.site(node)))
    if name == "dict":
        d = {}
        if args and isinstance(args[0], N.PyDict):
            d.update(args[0].items)
        elif args:
            els = _els(I, args[0], st)
            if els is None or not all(isinstance(e, N.PyTuple) and len(e.elems) == 2 for e in els):
                I.note("dict() of unknown sequence", node)
            else:
                for e in els:
                    d[I.dkey(e.elems[0], node)] = e.elems[1]
        d.update(kw)
        return N.PyDict(d)
    if name == "isinstance":
        return isinst(I, args[0], args[1], node)
    if name == "callable":
        return U.const(isinstance(args[0], (N.PyFunc, N.PyExt, N.PyPartial, N.PyClass)))
    if name == "type":
        return U.mk("ext:type", (t0(),))
    if name in ("getattr",):
        n = _lit(args[1])
        if isinstance(n, str):
            try:
                return I.getattr(args[0], n, st, node)
            except N.AnalysisError:
                if len(args) > 2:
                    return args[2]
                raise
    if name in ("print",):
        return U.NONE
    if name == "map":
        els = _els(I, args[1], st) if len(args) == 2 else None
        if els is not None:
            return N.PyTuple([I.call(args[0], [x], {}, st, node) for x in els], "list")
        if len(args) == 2 and isinstance(args[1], N.PySummary):
            return N.PySummary([I.call(args[0], [x], {}, st, node) for x in args[1].elems], ("map", I.site(node)))
    if name == "next":
        els = _els(I, args[0], st)
        if els:
            return els[0]
        return U.mk("next", [I.term(a, node) for a in args])
    if name == "hasattr":
        a = args[0]
        n = _lit(args[1])
        if isinstance(a, T) and n in ("shape", "ndim"):
            return U.const(a.kind in ("vec", "arr", "mat"))
        return U.mk("hasattr", (t0(),), val=n, kind="bool")
    if name in ("str", "repr", "format"):
        t = t0() if args else U.const("")
        return t if t.kind == "str" else U.mk("str", (t,), kind="str")
    if name == "slice":
        bs = [I.term(a, node) for a in args]
        if len(bs) == 1:
            bs = [U.NONE] + bs
        while len(bs) < 3:
            bs.append(U.NONE)
        return U.mk("slice", bs)
    if name == "super":
        return N.PyExt("builtins.super()")
    if name == "object":
        return N.PyExt("builtins.object()")
    return None


KINDS = {"bool": ("bool",), "int": ("int", "bool"), "float": ("real",), "complex": ("complex",), "str": ("str",)}


def isinst(I, v, cls, node):
    U = I.U
    if isinstance(cls, N.PyTuple):
        return U.OR(*[isinst(I, v, c, node) for c in cls.elems])
    q = cls.q if isinstance(cls, N.PyExt) else "?"
    n = q.rsplit(".", 1)[-1]
    if isinstance(v, N.PyUnion):
        return U.ITE(v.cond, isinst(I, v.a, cls, node), isinst(I, v.b, cls, node))
    if isinstance(v, N.PyTuple):
        return U.const(v.kind == n or (n == "tuple" and v.kind == "tuple"))
    if isinstance(v, N.PyDict):
        return U.const(n == "dict")
    if isinstance(v, T):
        if n in ("bool_",):
            return U.const(v.kind == "npbool") if v.kind in ("npbool", "bool", "int", "real", "vec", "arr", "none") else U.mk("isinst", (v,), val=n, kind="bool")
        if n == "ndarray":
            if v.kind in ("vec", "arr", "mat"):
                return U.TRUE
            if v.kind in ("real", "int", "bool", "none", "str"):
                return U.FALSE
        if n in KINDS and v.kind in ("bool", "npbool", "none", "str", "vec", "arr", "mat"):
            return U.const(v.kind in KINDS[n])
        if n == "float" and v.kind == "real" and v.op == "const":
            return U.TRUE
    return U.mk("isinst", (I.term(v, node),), val=n, kind="bool")


def optimize(I, name, args, kw, st, node):
    """Root finders of SciPy: evaluate the callback on a placeholder, model the result."""
    U = I.U
    site = (I.site(node), tuple(I.callsites()))
    if name in ("brentq", "brenth", "bisect", "ridder", "toms748", "newton", "root_scalar"):
        params = ["f", "a", "b", "args", "xtol", "rtol", "maxiter", "full_output", "disp"]
        if name == "newton":
            params = ["f", "a", "fprime", "args", "xtol", "maxiter", "fprime2", "x1", "rtol", "full_output", "disp"]
            if "tol" in kw:
                kw = dict(kw)
                kw["xtol"] = kw.pop("tol")
            if "x0" in kw:
                kw = dict(kw)
                kw["a"] = kw.pop("x0")
        b = dict(zip(params, args))
        b.update(kw)
        f = b.get("f")
        atom = U.mk("rootvar", (), val=site, kind="real")
        extra = b.get("args")
        ex = extra.elems if isinstance(extra, N.PyTuple) else []
        s = N.State(dict(st.env), st.pc)
        try:
            fv = I.term(I.call(f, [atom] + list(ex), {}, s, node), node)
        except N.Dead:
            fv = U.mk("nan", (), kind="real")
        g = lambda k, d: I.term(b[k], node) if k in b else U.const(d)
        bb = I.term(b["b"], node) if "b" in b and isinstance(b["b"], T) else U.NONE
        parts = [I.term(b["a"], node), bb, fv, g("xtol", 2e-12), g("rtol", 8.881784197001252e-16), g("maxiter", 100)]
        root = U.mk("brentq", parts, val=(name, site), kind="real")
        U.root_pc[root.uid] = (atom, s.pc)         # the callback returned normally at the root
        disp = b.get("disp")
        dispoff = isinstance(disp, T) and disp.op == "const" and disp.val is False
        conv = U.mk("brentq_conv", (root,), kind="bool")
        brk = U.mk("brentq_bracket", (root,), kind="bool")
        if name != "newton":
            bad = st.pc.assume(brk, False)
            if bad is not None:
                I.add_raise(st, bad, "ValueError", node, "f(a) and f(b) must have different signs", why="ext")
            st.pc = st.pc.assume(brk, True) or st.pc
        if not dispoff:
            bad = st.pc.assume(conv, False)
            if bad is not None:
                I.add_raise(st, bad, "RuntimeError", node, "Failed to converge", why="ext")
            st.pc = st.pc.assume(conv, True) or st.pc
        fo = b.get("full_output")
        if isinstance(fo, T) and fo.op == "const" and fo.val is True:
            r = _RootResult(root, conv)
            return N.PyTuple([root, r])
        return root
    if name == "minimize_scalar":
        f = args[0] if args else kw.get("fun")
        atom = U.mk("rootvar", (), val=site, kind="real")
        s = N.State(dict(st.env), st.pc)
        try:
            fv = I.term(I.call(f, [atom], {}, s, node), node)
        except N.Dead:
            fv = U.mk("nan", (), kind="real")
        parts = [fv] + [I.term(v, node) for k, v in sorted(kw.items()) if k != "fun"] + [I.term(a, node) for a in args[1:]]
        x = U.mk("minimizer", parts, val=site, kind="real")
        return _MinResult(x)
    return None


class _RootResult(N.PyInst):
    def __init__(self, root, conv):
        self.root, self.conv = root, conv
        self.attrs, self.tuple = {}, None

    def get(self, I, attr, st, node):
        U = I.U
        if attr == "converged":
            return self.conv
        if attr in ("iterations", "function_calls"):
            return U.mk("brentq_" + attr, (self.root,), kind="int")
        if attr == "root":
            return self.root
        return U.mk("attr", (self.root,), val=attr)


class _MinResult(N.PyInst):
    def __init__(self, x):
        self.x = x
        self.attrs, self.tuple = {}, None

    def get(self, I, attr, st, node):
        U = I.U
        if attr == "x":
            return self.x
        if attr == "fun":
            return U.mk("minval", (self.x,), kind="real")
        if attr == "success":
            return U.mk("min_success", (self.x,), kind="bool")
        if attr in ("nit", "nfev"):
            return U.mk("min_" + attr, (self.x,), kind="int")
        return U.mk("attr", (self.x,), val=attr)


INPLACE = {"fill", "sort", "put", "itemset", "resize", "partition", "byteswap", "setflags", "__setitem__", "__iadd__", "__imul__"}


def call_method(I, bound, args, kw, st, node):
    U = I.U
    obj, name = bound.obj, bound.name
    args = [I.resolve(a, st) for a in args]
    kw = {k: I.resolve(v, st) for k, v in kw.items()}
    obj = I.resolve(obj, st)
    mutate_out(I, kw, node)
    if isinstance(obj, N.PyDict):
        if name == "get":
            k = args[0]
            if isinstance(k, T) and k.op == "const":
                return obj.items.get(k.val, args[1] if len(args) > 1 else U.NONE)
            return I.subscript(obj, k, st, node)
        if name == "keys":
            return N.PyTuple([U.const(k) if not isinstance(k, Fraction) else U.num(k, "int") for k in obj.items], "list")
        if name == "values":
            return N.PyTuple(list(obj.items.values()), "list")
        if name == "items":
            return N.PyTuple([N.PyTuple([U.const(k) if not isinstance(k, (Fraction, tuple)) else U.const(str(k)), v]) for k, v in obj.items.items()], "list")
        if name == "copy":
            return N.PyDict(obj.items)
        if name in ("update", "setdefault", "pop", "clear"):
            if not (bound.var is not None and I.local_obj(bound.var, st)):
                I.effect("mutate-nonlocal", "dict.%s" % name, node)
            if name == "update" and args and isinstance(args[0], N.PyDict) and bound.var is not None:
                I.rebind(bound.var, N.PyDict({**obj.items, **args[0].items, **kw}), st)
                return U.NONE
            if name == "setdefault" and bound.var is not None and isinstance(args[0], T) and args[0].op == "const":
                if args[0].val in obj.items:
                    return obj.items[args[0].val]
                I.rebind(bound.var, N.PyDict({**obj.items, args[0].val: args[1]}), st)
                return args[1]
            I.note("dict.%s" % name, node)
            return U.mk("opaque", (), val=("dict", name, I.site(node)))
    if isinstance(obj, (N.PyTuple, N.PySummary)):
        if name in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add"):
            if bound.var is None or not I.local_obj(bound.var, st):
                I.effect("mutate-nonlocal", "list.%s" % name, node)
            el = list(obj.elems)
            new = None
            ret = U.NONE
            if isinstance(obj, N.PyTuple):
                if name in ("append", "add"):
                    new = N.PyTuple(el + [args[0]], obj.kind)
                elif name == "extend":
                    e = _els(I, args[0], st)
                    new = N.PyTuple(el + e, obj.kind) if e is not None else N.PySummary(el + [I.term(args[0], node)], ("ext", I.site(node)))
                elif name == "clear":
                    new = N.PyTuple([], obj.kind)
                elif name == "reverse":
                    new = N.PyTuple(el[::-1], obj.kind)
                elif name == "pop" and (not args or U.isnum(args[0])):
                    i = int(args[0].val) if args else -1
                    try:
                        ret = el.pop(i)
                    except IndexError:
                        I.add_raise(st, st.pc, "IndexError", node, why="type")
                        raise N.Dead()
                    new = N.PyTuple(el, obj.kind)
                elif name == "insert" and U.isnum(args[0]):
                    el.insert(int(args[0].val), args[1])
                    new = N.PyTuple(el, obj.kind)
                elif name == "sort":
                    new = builtin(I, "sorted", [obj], {}, st, node)
            else:
                if name in ("append", "add"):
                    new = N.PySummary(el + [args[0]], obj.uid) if not any(N.same_val(args[0], x) for x in el) else obj
                elif name in ("sort", "reverse"):
                    new = obj
                else:
                    new = N.PySummary(el + [I.term(a, node) for a in args], obj.uid)
                    ret = el[0] if el else U.NONE
            if new is not None and bound.var is not None:
                I.rebind(bound.var, new, st)
            return ret
        if name == "copy":
            return obj
        if name in ("index", "count"):
            return U.mk("ext:list." + name, [I.term(obj, node)] + [I.term(a, node) for a in args], kind="int")
    if isinstance(obj, T):
        if name in INPLACE:
            I.check_mutation(obj, node, "in-place method %s" % name)
            if bound.var is not None and name == "fill":
                I.rebind(bound.var, U.mk("store", (obj, U.NONE, I.term(args[0], node)), kind=obj.kind), st)
            elif bound.var is not None and name in ("sort", "put", "itemset", "partition"):
                I.rebind(bound.var, U.mk("inplace", [obj] + [I.term(a, node) for a in args], val=name, kind=obj.kind), st)
            return U.NONE
        if name == "dot":
            return dot(I, obj, to_array(I, args[0], "view", node, st=st), node)
        if name in ("copy", "astype", "flatten"):
            t = obj if obj.op == "array" else U.mk("copy", (obj,), kind=obj.kind)
            cp = kw.get("copy")
            if name == "astype" and isinstance(cp, T) and cp.op == "const" and cp.val is False:
                t = U.mk("view", (obj,), kind=obj.kind)
            return t
        if name in ("ravel", "reshape", "view", "squeeze", "transpose", "swapaxes"):
            sh = getattr(I, "shapes", {}).get(obj.val if obj.op == "input" else None)
            if name == "reshape" and sh is not None:
                return U.mk("view", (obj,), val="reshape", kind="any")
            if name == "reshape" and obj.kind == "vec" and not _keeps3(U, I, args):
                return U.mk("reshaped", (obj,), kind="mat")
            return U.mk("view", (obj,), kind=obj.kind)
        if name in ("sum", "max", "min", "mean", "prod", "any", "all", "clip", "round"):
            r = mathfn(I, "numpy", name, [obj] + args, kw, st, node)
            return r if r is not None else U.mk("m:" + name, (obj,), kind="real")
        if name in ("conj", "conjugate", "item", "tolist"):
            if name == "tolist":
                e = I.elements(obj, 3, st, node)
                return N.PyTuple(e, "list") if e is not None else obj
            return obj if name == "item" else U.mk("conj", (obj,), kind=obj.kind)
        if obj.kind == "str" or name in ("format", "join", "split", "upper", "lower", "strip", "startswith", "endswith", "replace", "title"):
            return U.mk("str." + name, [obj] + [I.term(a, node) for a in args], kind="bool" if name.endswith("swith") else "str")
    I.note("method %s of %r" % (name, type(obj).__name__), node)
    return U.mk("meth:" + name, [I.term(obj, node)] + [I.term(a, node) for a in args])
