#!/usr/bin/env python3
"""refactor.py OUT SEED [kind,kind..] [--p P] [--files substr]: write a copy of /repo to OUT in which random places are rewritten without changing behaviour.

Used to see that the checks stay quiet: rename, negate, temp, helper, commute, flipcmp, while, augment, ternary, square, half."""
import ast
import copy
import os
import random
import shutil
import sys

KINDS = ["rename", "negate", "temp", "helper", "commute", "flipcmp", "while", "augment", "ternary", "square", "half", "chainret", "elsedrop"]


def names(n, ctx=ast.Load):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


class R:
    def __init__(self, rng, p, kinds):
        self.rng, self.p, self.kinds, self.n = rng, p, kinds, 0

    def hit(self, k):
        return k in self.kinds and self.rng.random() < self.p

    def fresh(self, b):
        self.n += 1
        return "%s_%d" % (b, self.n)

    def module(self, tree):
        self.top = {x.name for x in tree.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
        self.top |= {a.asname or a.name.split(".")[0] for x in tree.body if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        self.top |= {t.id for x in tree.body if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
        body = []
        for st in tree.body:
            if isinstance(st, ast.FunctionDef):
                self.new = []
                self.fn = st
                self.nested = [x for x in ast.walk(st) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp)) and x is not st]
                self.stores = names(st, ast.Store) | {a.arg for a in st.args.args + st.args.kwonlyargs}
                for x in self.nested:
                    if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                        self.stores |= {a.arg for a in x.args.args}
                    if isinstance(x, ast.FunctionDef):
                        self.stores.add(x.name)
                self.deco = [copy.deepcopy(d) for d in st.decorator_list]
                st.body = self.block(st.body)
                if "rename" in self.kinds:
                    self.rename(st)
                body += self.new
            body.append(st)
        tree.body = body
        return ast.fix_missing_locations(tree)

    def rename(self, fn):
        params = {a.arg for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.Lambda)) for a in x.args.args + x.args.kwonlyargs}
        if any(isinstance(x, (ast.Nonlocal, ast.Global)) for x in ast.walk(fn)):
            return
        loc = names(fn, ast.Store) - params
        m = {v: v + "_q" for v in sorted(loc) if self.rng.random() < self.p}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]

    def block(self, body):
        out = []
        for st in body:
            out += self.st(st)
        return out

    def st(self, st):
        if isinstance(st, ast.FunctionDef):
            d = self.deco
            self.deco = None
            st.body = self.block(st.body)
            self.deco = d
            return [st]
        pre = []
        for f in ("body", "orelse", "finalbody"):
            if isinstance(getattr(st, f, None), list) and getattr(st, f):
                setattr(st, f, self.block(getattr(st, f)))
        for h in getattr(st, "handlers", []):
            h.body = self.block(h.body)
        if isinstance(st, ast.If):
            st.test = self.expr(st.test)
            if st.orelse and self.hit("negate"):
                st.test, st.body, st.orelse = ast.UnaryOp(ast.Not(), st.test), st.orelse, st.body
            elif st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise)) and self.hit("elsedrop"):
                o, st.orelse = st.orelse, []
                return [st] + o
            return [st]
        if isinstance(st, ast.For):
            it = st.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) in (1, 2) and isinstance(st.target, ast.Name) and self.hit("while"):
                v = st.target.id
                lo = it.args[0] if len(it.args) == 2 else ast.Constant(0)
                stop = self.fresh("stop")
                a = ast.Assign([ast.Name(v, ast.Store())], ast.BinOp(lo, ast.Sub(), ast.Constant(1)))
                b = ast.Assign([ast.Name(stop, ast.Store())], it.args[-1])
                w = ast.While(ast.Compare(ast.BinOp(ast.Name(v, ast.Load()), ast.Add(), ast.Constant(1)), [ast.Lt()], [ast.Name(stop, ast.Load())]),
                              [ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))] + st.body, st.orelse)
                return [a, b, w]
            return [st]
        if isinstance(st, ast.While):
            st.test = self.expr(st.test)
            return [st]
        if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and self.hit("augment"):
            st = ast.Assign([st.target], ast.BinOp(ast.Name(st.target.id, ast.Load()), st.op, st.value))
        if isinstance(st, ast.Assign):
            st.value = self.expr(st.value)
            if isinstance(st.value, ast.IfExp) and self.hit("ternary"):
                e = st.value
                mk = lambda v: [ast.Assign(copy.deepcopy(st.targets), v)]
                return [ast.If(e.test, mk(e.body), mk(e.orelse))]
            if isinstance(st.value, ast.BinOp):
                if self.hit("helper"):
                    st.value = self.helper(st.value)
                elif isinstance(st.value.left, (ast.BinOp, ast.Call)) and self.hit("temp"):
                    t = self.fresh("tmp")
                    pre = [ast.Assign([ast.Name(t, ast.Store())], st.value.left)]
                    st.value.left = ast.Name(t, ast.Load())
            return pre + [st]
        if isinstance(st, ast.Return) and st.value is not None:
            st.value = self.expr(st.value)
            if isinstance(st.value, (ast.BinOp, ast.Call)) and self.hit("temp"):
                t = self.fresh("res")
                pre = [ast.Assign([ast.Name(t, ast.Store())], st.value)]
                st.value = ast.Name(t, ast.Load())
            elif isinstance(st.value, ast.BinOp) and self.hit("helper"):
                st.value = self.helper(st.value)
            elif isinstance(st.value, ast.IfExp) and self.hit("chainret"):
                e = st.value
                return [ast.If(e.test, [ast.Return(e.body)], []), ast.Return(e.orelse)]
            return pre + [st]
        return [st]

    def helper(self, e):
        if self.deco is None or any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.NamedExpr)) for x in ast.walk(e)):
            return e
        ns = sorted(names(e) & self.stores)
        if any(n in self.nestednames() for n in ns) or not ns:
            return e
        called = {x.func.id for x in ast.walk(e) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)}
        if called & self.stores:
            return e
        f = self.fresh("_part")
        self.new.append(ast.FunctionDef(name=f, args=ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in ns], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                        body=[ast.Return(e)], decorator_list=[copy.deepcopy(d) for d in self.deco], type_params=[]))
        return ast.Call(ast.Name(f, ast.Load()), [ast.Name(n, ast.Load()) for n in ns], [])

    def nestednames(self):
        return {x.name for x in self.nested if isinstance(x, ast.FunctionDef)}

    def expr(self, e):
        return Ex(self).visit(e)


class Ex(ast.NodeTransformer):
    def __init__(self, R):
        self.R = R

    def visit_Lambda(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        bad = any(isinstance(x, (ast.List, ast.Tuple, ast.ListComp, ast.JoinedStr)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right))
        if isinstance(n.op, (ast.Mult, ast.Add)) and not bad and self.R.hit("commute"):
            return ast.BinOp(n.right, n.op, n.left)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, ast.Name) and self.R.hit("square"):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        if isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant) and n.right.value == 2 and not isinstance(n.left, ast.Constant) and self.R.hit("half"):
            return ast.BinOp(ast.Constant(0.5), ast.Mult(), n.left)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq}
        if len(n.ops) == 1 and type(n.ops[0]) in sw and self.R.hit("flipcmp"):
            return ast.Compare(n.comparators[0], [sw[type(n.ops[0])]()], [n.left])
        return n


def main():
    a = sys.argv[1:]
    opt = {}
    while any(x.startswith("--") for x in a):
        i = next(i for i, x in enumerate(a) if x.startswith("--"))
        opt[a[i]] = a[i + 1]
        del a[i:i + 2]
    out, seed = a[0], int(a[1])
    kinds = a[2].split(",") if len(a) > 2 else KINDS
    shutil.copytree("/repo", out, symlinks=True, dirs_exist_ok=True)
    for d, ds, fs in os.walk(os.path.join(out, "src")):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith((".nbc", ".nbi", ".pyc")):
                os.unlink(p)
            if not f.endswith(".py") or opt.get("--files", "") not in p:
                continue
            rng = random.Random("%d/%s" % (seed, f))
            src = open(p).read()
            open(p, "w").write(ast.unparse(R(rng, float(opt.get("--p", 0.3)), kinds).module(ast.parse(src))) + "\n")


if __name__ == "__main__":
    main()
