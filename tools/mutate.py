#!/usr/bin/env python3
"""Self-test: mutate single constructs of /repo's source (in memory) and see which mutants the rules report.

usage: mutate.py ID [function-substring ...]      lists the surviving mutants of the functions the property analyses
"""
import ast
import copy
import json
import importlib
import multiprocessing as mp
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(60000)

from rxnsa import model  # noqa: E402
from rxnsa.check import HOLD, INC, VIOL, Ctx  # noqa: E402

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn],
       ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.BitOr: [ast.BitAnd],
       ast.BitAnd: [ast.BitOr]}
SWAPNAMES = [("min", "max"), ("any", "all"), ("reactants", "products"), ("reactant_coeffs", "product_coeffs"),
             ("reactant_entries", "product_entries"), ("union", "intersection"), ("issubset", "issuperset"),
             ("append", "extend"), ("argmin", "argmax"), ("precursors", "targets")]


def crashy(fn, s):
    """dropping this assignment leaves a name unbound"""
    tg = s.targets if isinstance(s, ast.Assign) else [s.target]
    names = {x.id for t in tg for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    if not names:
        return False
    bound = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    for n in ast.walk(fn):
        if n is s:
            continue
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.For, ast.withitem)):
            t2 = n.targets if isinstance(n, ast.Assign) else [n.target] if not isinstance(n, ast.withitem) else [n.optional_vars]
            if getattr(n, "lineno", 10**9) <= s.lineno:
                bound |= {x.id for t in t2 if t is not None for x in ast.walk(t) if isinstance(x, ast.Name)}
    return not names <= bound


def mutants(fn):
    """yield (description, mutated function node)"""
    nodes = list(ast.walk(fn))
    skip = set()
    for x in nodes:
        for a in ("annotation", "returns"):
            if getattr(x, a, None) is not None:
                skip |= {id(y) for y in ast.walk(getattr(x, a))}
        if isinstance(x, ast.keyword) and x.arg in ("strict", "desc", "disable"):
            skip |= {id(y) for y in ast.walk(x)}
        if isinstance(x, ast.Raise) and x.exc is not None:
            skip |= {id(y) for y in ast.walk(x.exc)}
        if isinstance(x, ast.Call) and "logger" in ast.unparse(x.func):
            skip |= {id(y) for y in ast.walk(x)}
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        def mut(desc, f):
            c = copy.deepcopy(fn)
            m = list(ast.walk(c))[i]
            r = f(m, c)
            if r is False:
                return None
            return f"L{getattr(n, 'lineno', '?')} {desc}", c

        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    def f(m, c, k=k, new=new):
                        m.ops[k] = new()
                    yield mut(f"cmp {ast.unparse(n)} -> {new.__name__}", f)
        if isinstance(n, ast.BoolOp):
            def f(m, c):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield mut(f"boolop {ast.unparse(n)[:60]}", f)
            for k in range(len(n.values)):
                def f(m, c, k=k):
                    del m.values[k]
                    if len(m.values) == 1:
                        m.values.append(copy.deepcopy(m.values[0]))
                yield mut(f"drop conjunct {ast.unparse(n.values[k])[:60]}", f)
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(n.op), []):
                def f(m, c, new=new):
                    m.op = new()
                yield mut(f"binop {ast.unparse(n)[:60]} -> {new.__name__}", f)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            def f(m, c):
                m.op = ast.UAdd() if isinstance(m.op, ast.USub) else m.op
                if isinstance(m.op, ast.Not):
                    m.operand = ast.UnaryOp(ast.Not(), m.operand)
            yield mut(f"unary {ast.unparse(n)[:60]}", f)
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            def f(m, c):
                m.value = m.value + 1
            yield mut(f"const {n.value}+1", f)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            def f(m, c):
                m.value = not m.value
            yield mut(f"const not {n.value}", f)
        if isinstance(n, (ast.If, ast.IfExp)):
            def f(m, c):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            yield mut(f"negate if {ast.unparse(n.test)[:60]}", f)
            def f(m, c):
                m.test = ast.Constant(True)
            yield mut(f"if True: {ast.unparse(n.test)[:60]}", f)
            def f(m, c):
                m.test = ast.Constant(False)
            yield mut(f"if False: {ast.unparse(n.test)[:60]}", f)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in range(len(n.generators)):
                if n.generators[g].ifs:
                    def f(m, c, g=g):
                        m.generators[g].ifs = []
                    yield mut(f"drop filter {ast.unparse(n)[:70]}", f)
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                if n.keywords[k].arg and n.keywords[k].arg not in ("strict", "desc", "disable"):
                    def f(m, c, k=k):
                        del m.keywords[k]
                    yield mut(f"drop kwarg {n.keywords[k].arg} in {ast.unparse(n)[:60]}", f)
            for k in range(len(n.args) - 1):
                if isinstance(n.func, ast.Name) and (n.func.id in ("isinstance", "min", "max", "getattr", "hasattr", "setattr", "super") or n.func.id[0].isupper()):
                    continue
                def f(m, c, k=k):
                    m.args[k], m.args[k + 1] = m.args[k + 1], m.args[k]
                yield mut(f"swap args {ast.unparse(n)[:60]}", f)
            if isinstance(n.func, ast.Name) and n.func.id in ("set", "list", "sorted", "deepcopy", "abs") and len(n.args) == 1 and not n.keywords:
                def f(m, c):
                    class R(ast.NodeTransformer):
                        def visit_Call(self, x):
                            if x is m:
                                return self.visit(x.args[0])
                            return self.generic_visit(x)
                    R().visit(c)
                yield mut(f"unwrap {ast.unparse(n)[:60]}", f)
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                def f(m, c):
                    class R(ast.NodeTransformer):
                        def visit_Call(self, x):
                            if x is m:
                                return self.visit(x.func.value)
                            return self.generic_visit(x)
                    R().visit(c)
                yield mut(f"uncopy {ast.unparse(n)[:60]}", f)
        for a, b in SWAPNAMES:
            for x, y in ((a, b), (b, a)):
                if isinstance(n, ast.Attribute) and n.attr == x:
                    def f(m, c, y=y):
                        m.attr = y
                    yield mut(f"attr {ast.unparse(n)[:40]} -> {y}", f)
                if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Load):
                    def f(m, c, y=y):
                        m.id = y
                    yield mut(f"name {x} -> {y}", f)
        if isinstance(n, ast.Dict):
            for k in range(len(n.keys)):
                def f(m, c, k=k):
                    del m.keys[k]
                    del m.values[k]
                yield mut(f"drop key {ast.unparse(n.keys[k]) if n.keys[k] else '**'}", f)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            def f(m, c):
                class R(ast.NodeTransformer):
                    def visit_Subscript(self, x):
                        if x is m:
                            return self.visit(x.value)
                        return self.generic_visit(x)
                R().visit(c)
            yield mut(f"unslice {ast.unparse(n)[:60]}", f)
        for fld in ("body", "orelse", "finalbody"):
            body = getattr(n, fld, None)
            if isinstance(body, list) and body and isinstance(body[0], ast.stmt):
                for k, s in enumerate(body):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, (ast.Assign, ast.AnnAssign)) and crashy(fn, s):
                        continue
                    if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.FunctionDef)):
                        continue
                    if isinstance(s, ast.Expr) and "log" in ast.unparse(s).split("(")[0]:
                        continue
                    def f(m, c, k=k, fld=fld):
                        getattr(m, fld)[k] = ast.Pass()
                    r = mut(f"drop stmt {ast.unparse(s).splitlines()[0][:70]}", f)
                    if r:
                        yield f"L{s.lineno} " + r[0].split(" ", 1)[1], r[1]
                    if isinstance(s, (ast.Continue, ast.Break)):
                        def f(m, c, k=k, fld=fld):
                            getattr(m, fld)[k] = ast.Break() if isinstance(getattr(m, fld)[k], ast.Continue) else ast.Continue()
                        yield mut("swap break/continue", f)


def replace_fn(mod, fn, new):
    tree = copy.deepcopy(mod.tree)

    class R(ast.NodeTransformer):
        def visit_FunctionDef(self, x):
            if x.lineno == fn.lineno and x.name == fn.name:
                return new
            return self.generic_visit(x)

    t = R().visit(tree)
    ast.fix_missing_locations(t)
    return ast.unparse(t)


KNOWN = {(x["property"], x["key"]) for x in json.load(open(os.path.join(os.path.dirname(__file__), "..", "known_findings.json")))["findings"]}


def run_rules(pid):
    out = []

    def go():
        try:
            ctx = Ctx(model.Program())
            m = importlib.import_module(f"rxnsa.rules.{pid.lower()}")
            m.rules(ctx)
            if os.environ.get("RESOLVE"):
                ctx.resolve(float(os.environ["RESOLVE"]))
            out.append((sorted(o.key for o in ctx.obs if o.status == VIOL and (pid, o.key) not in KNOWN), sorted(o.key for o in ctx.obs if o.status == INC),
                        sum(o.status == HOLD for o in ctx.obs), list(ctx.broken), {o.key: o.detail[:400] for o in ctx.obs if o.status != HOLD}))
        except Exception as e:  # noqa: BLE001
            out.append(([], [], -1, [repr(e)], []))

    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out[0]


def job(a):
    pid, modname, qual, desc, src = a
    threading.stack_size(1 << 28)
    model.OVERRIDE.clear()
    model.OVERRIDE[modname] = src
    return qual, desc, run_rules(pid)


def main():
    pid = sys.argv[1].upper()
    filt = [a for a in sys.argv[2:] if not a.startswith("-")]
    threading.stack_size(1 << 28)
    prog = model.Program()
    ctx = Ctx(prog)
    importlib.import_module(f"rxnsa.rules.{pid.lower()}").rules(ctx)
    quals = set(ctx.analysed)
    base = {o.key for o in ctx.obs if o.status == INC}
    jobs = []
    for f in prog.all_funcs():
        if (filt and any(x in f.qual for x in filt)) or (not filt and f.qual in quals):
            for r in mutants(f.node):
                if r is None:
                    continue
                desc, new = r
                ast.fix_missing_locations(new)
                try:
                    src = replace_fn(f.mod, f.node, new)
                    ast.parse(src)
                except Exception:
                    continue
                jobs.append((pid, f.mod.name, f.qual, desc, src))
    tot = caught = inc = err = 0
    with mp.Pool(6, maxtasksperchild=6) as pool:
        for qual, desc, (v, i, h, b, d) in pool.imap(job, jobs, chunksize=4):
            tot += 1
            if h == -1:
                err += 1
                print(f"ERROR {qual} {desc} {b}")
            elif v:
                caught += 1
                if "-v" in sys.argv:
                    print(f"caught {qual} {desc}: {v}")
            elif set(i) - base or b:
                inc += 1
                print(f"INC   {qual} {desc}: {sorted(set(i) - base)[:3]} {b[:2]}")
                if "-d" in sys.argv:
                    for k in sorted(set(i) - base)[:1]:
                        print("        ", d[k])
            else:
                print(f"MISS  {qual} {desc}")
    print(f"{pid}: mutants {tot}, reported {caught}, inconclusive {inc}, missed {tot - caught - inc - err}, errors {err}")


if __name__ == "__main__":
    main()
