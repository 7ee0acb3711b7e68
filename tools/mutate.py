#!/usr/bin/env python3
"""Syntactic mutants of one function, run against the checks; tells which survive (development aid, not a check).

mutate.py FILE FUNC[,FUNC] CHECK[,CHECK] [--unit SUBSTR] [--n N]
"""
import ast, copy, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

def sites(tree, funcs):
    out = []
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef) and (fn.name in funcs or "*" in funcs):
            for n in ast.walk(fn):
                if isinstance(n, ast.BinOp):
                    k = type(n.op).__name__
                    for r in {"Add": ["Sub"], "Sub": ["Add"], "Mult": ["Div"], "Div": ["Mult"], "Pow": []}.get(k, []):
                        out.append((fn.name, n, "op", r))
                elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    out.append((fn.name, n, "const", n.value + 1))
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                    out.append((fn.name, n, "neg", None))
                elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                    k = type(n.ops[0]).__name__
                    for r in {"Lt": ["GtE"], "Gt": ["LtE"], "LtE": ["Gt"], "GtE": ["Lt"]}.get(k, []):
                        out.append((fn.name, n, "cmp", r))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SW:
                    out.append((fn.name, n, "call", SW[n.func.attr]))
    return out
SW = {"sin": "cos", "cos": "sin", "sinh": "cosh", "cosh": "sinh", "sqrt": "abs", "arcsin": "arccos", "arccos": "arcsin", "tan": "sin"}

def apply(n, kind, r):
    if kind == "op": n.op = getattr(ast, r)()
    elif kind == "const": n.value = r
    elif kind == "neg": n.op = ast.UAdd()
    elif kind == "cmp": n.ops[0] = getattr(ast, r)()
    elif kind == "call": n.func.attr = r

def main():
    f, funcs, checks = sys.argv[1], sys.argv[2].split(","), sys.argv[3].split(",")
    unit = sys.argv[sys.argv.index("--unit") + 1] if "--unit" in sys.argv else None
    N = int(sys.argv[sys.argv.index("--n") + 1]) if "--n" in sys.argv else 1000
    src = open("/repo/" + f).read()
    k = len(sites(ast.parse(src), funcs))
    idx = list(range(k))
    random.Random(1).shuffle(idx)
    idx = sorted(idx[:N])
    def one(i):
        tree = ast.parse(src)
        fn, n, kind, r = sites(tree, funcs)[i]
        old = ast.unparse(n); line = n.lineno
        apply(n, kind, r)
        new = ast.unparse(n)
        d = "/tmp/mut/%d" % i
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree("/repo/src", d + "/src")
        shutil.copytree("/repo/scripts", d + "/scripts")
        open(d + "/" + f, "w").write(ast.unparse(tree))
        res = {}
        for c in checks:
            cmd = ["python3", "/verif/check.py", c, "--root", d, "--out", d + "/ev"] + (["--unit", unit] if unit else [])
            try:
                p = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
                res[c] = "V" if "VIOLATION" in p.stdout else "e" if "ANALYSIS-ERROR" in p.stdout else "u" if "UNDECIDED" in p.stdout else "-" if p.returncode == 0 else str(p.returncode)
            except subprocess.TimeoutExpired:
                res[c] = "T"
        shutil.rmtree(d, ignore_errors=True)
        return i, fn, line, old, new, res
    with ThreadPoolExecutor(4) as ex:
        tot = caught = 0
        for i, fn, line, old, new, res in ex.map(one, idx):
            tot += 1
            c = "V" in res.values()
            caught += c
            print("%s %4d %s:%d %s => %s  %s" % ("caught  " if c else "SURVIVED", i, fn, line, old[:60], new[:60], " ".join("%s%s" % x for x in res.items())), flush=True)
        print("caught %d of %d" % (caught, tot))
main()
