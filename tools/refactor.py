#!/usr/bin/env python3
"""Self-test: behaviour-preserving rewrites of /repo's functions (in memory); every check has to stay quiet on all of them.

usage: refactor.py [-t transform,...] [-f function-substring] [-p ID,...] [--whole]
"""
import argparse
import ast
import builtins
import copy
import json
import importlib
import multiprocessing as mp
import os
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(60000)

from check import ids  # noqa: E402
from rxnsa import model  # noqa: E402
from rxnsa.check import INC, VIOL, HOLD, Ctx  # noqa: E402

BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        if type(t.ops[0]) in m:
            return ast.Compare(t.left, [m[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


def name(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())


def assign(x, v):
    return ast.Assign([name(x, True)], v, lineno=0)


def locals_of(fn):
    par = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    for v in (fn.args.vararg, fn.args.kwarg):
        if v:
            par.add(v.arg)
    st, gl = set(), set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            st.add(x.id)
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            gl |= set(x.names)
        if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn:
            for a in x.args.args:
                par.add(a.arg)
            if isinstance(x, ast.FunctionDef):
                par.add(x.name)
    return st - par - gl, par


def blocks(fn):
    """every statement list (mutable)"""
    for x in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(x, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield x, f, b


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def names(x):
    return {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}


def calls(x):
    return any(isinstance(y, (ast.Call, ast.Await, ast.Yield)) for y in ast.walk(x))


class Fresh:
    n = 0

    @classmethod
    def get(cls, p="tmp"):
        cls.n += 1
        return f"{p}_{cls.n}"


# ------------------------------------------------------------------ transforms: fn -> bool (changed in place)
def t_rename(fn):
    st, _ = locals_of(fn)
    if not st:
        return False
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in st:
            x.id = "the_" + x.id
        if isinstance(x, ast.ExceptHandler) and x.name:
            if x.name in st:
                x.name = "the_" + x.name
    return True


def t_rename2(fn):
    """short unrelated names, so that alphabetical order changes"""
    st, _ = locals_of(fn)
    if not st:
        return False
    order = sorted(st)
    ren = {n: "z%02d" % (97 - i) + "q" for i, n in enumerate(order)}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in ren:
            x.id = ren[x.id]
    return True


def expand_comp(tgt, c):
    """statements computing comprehension c into variable tgt"""
    st, par = set(), set()
    if isinstance(c, ast.ListComp):
        init, put = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(name(tgt), "append", ast.Load()), [c.elt], []))
    elif isinstance(c, ast.SetComp):
        init, put = ast.Call(name("set"), [], []), ast.Expr(ast.Call(ast.Attribute(name(tgt), "add", ast.Load()), [c.elt], []))
    elif isinstance(c, ast.DictComp):
        init = ast.Dict([], [])
        put = ast.Assign([ast.Subscript(name(tgt), c.key, ast.Store())], c.value, lineno=0)
    else:
        return None
    body = [put]
    for g in reversed(c.generators):
        for i in reversed(g.ifs):
            body = [ast.If(i, body, [])]
        body = [ast.For(g.target, g.iter, body, [], lineno=0)]
    return [assign(tgt, init)] + body


def comp_safe(fn, c):
    """comprehension variables do not clash with other names of the function"""
    tv = {x.id for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
    inside = {id(x) for x in ast.walk(c)}
    return not any(isinstance(x, (ast.Name, ast.arg)) and (getattr(x, "id", None) or getattr(x, "arg", None)) in tv and id(x) not in inside for x in ast.walk(fn))


def t_comp2loop(fn):
    ch = False
    for _, _, b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            c = None
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.SetComp, ast.DictComp)):
                if isinstance(s, ast.Return):
                    tgt = Fresh.get("res")
                elif len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id not in names(s.value):
                    tgt = s.targets[0].id
                else:
                    i += 1
                    continue
                if comp_safe(fn, s.value):
                    c = expand_comp(tgt, s.value)
                    if isinstance(s, ast.Return):
                        c.append(ast.Return(name(tgt)))
            if c:
                b[i:i + 1] = c
                i += len(c)
                ch = True
            else:
                i += 1
    return ch


def t_inner_comp2loop(fn):
    """first comprehension nested in an expression statement gets its own loop"""
    ch = False
    for _, _, b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and s.value is not None and not isinstance(s.value, (ast.ListComp, ast.SetComp, ast.DictComp)):
                v = s.value
                # only when evaluated unconditionally and outermost: direct call argument
                if isinstance(v, ast.Call):
                    for k, a in enumerate(v.args):
                        if isinstance(a, (ast.ListComp, ast.SetComp, ast.DictComp)) and comp_safe(fn, a) and not any(calls(z) for z in v.args[:k]):
                            tgt = Fresh.get("acc")
                            st = expand_comp(tgt, a)
                            v.args[k] = name(tgt)
                            b[i:i] = st
                            i += len(st)
                            ch = True
                            break
            i += 1
    return ch


def t_loop2comp(fn):
    ch = False
    for _, _, b in blocks(fn):
        i = 0
        while i + 1 < len(b):
            s, f = b[i], b[i + 1]
            if (isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(f, ast.For) and not f.orelse and s.value is not None
                    and isinstance(s.value, ast.List) and not s.value.elts):
                tg = s.targets[0] if isinstance(s, ast.Assign) else s.target
                if isinstance(tg, ast.Name):
                    gens = [ast.comprehension(f.target, f.iter, [], 0)]
                    body = f.body
                    ok = True
                    while True:
                        if len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
                            gens[-1].ifs.append(body[0].test)
                            body = body[0].body
                        elif len(body) == 1 and isinstance(body[0], ast.For) and not body[0].orelse:
                            gens.append(ast.comprehension(body[0].target, body[0].iter, [], 0))
                            body = body[0].body
                        elif len(body) >= 2 and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Continue):
                            gens[-1].ifs.append(neg(body[0].test))
                            body = body[1:]
                        else:
                            break
                    e = body[0] if len(body) == 1 else None
                    if (isinstance(e, ast.Expr) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute)
                            and e.value.func.attr == "append" and isinstance(e.value.func.value, ast.Name) and e.value.func.value.id == tg.id):
                        elt = e.value.args[0]
                        if tg.id not in names(elt) and not any(tg.id in names(g.iter) or any(tg.id in names(z) for z in g.ifs) for g in gens):
                            b[i:i + 2] = [assign(tg.id, ast.ListComp(elt, gens))]
                            ch = True
                            continue
            i += 1
    return ch


def t_ret_temp(fn):
    ch = False
    for _, _, b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                n = Fresh.get("result")
                b[i:i + 1] = [assign(n, s.value), ast.Return(name(n))]
                i += 1
                ch = True
            i += 1
    return ch


def t_cond_temp(fn):
    ch = False
    for _, _, b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.If):
                n = Fresh.get("cond")
                b.insert(i, assign(n, s.test))
                s.test = name(n)
                i += 1
                ch = True
            i += 1
    return ch


def t_arg_temp(fn):
    """first call argument of every call statement gets a name"""
    ch = False
    for _, _, b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call) and s.value.args:
                a = s.value.args[0]
                if not isinstance(a, (ast.Name, ast.Constant, ast.Starred, ast.GeneratorExp)) and not calls(s.value.func):
                    n = Fresh.get("arg")
                    b.insert(i, assign(n, a))
                    s.value.args[0] = name(n)
                    i += 1
                    ch = True
            i += 1
    return ch


def t_invert_if(fn):
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and x.orelse and not (len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If)):
            x.test = neg(x.test)
            x.body, x.orelse = x.orelse, x.body
            ch = True
    return ch


def t_invert_ifexp(fn):
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.IfExp):
            x.test = neg(x.test)
            x.body, x.orelse = x.orelse, x.body
            ch = True
    return ch


def t_early2else(fn):
    ch = False
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                s.orelse = b[i + 1:]
                del b[i + 1:]
                ch = True
                break
    return ch


def t_else2early(fn):
    ch = False
    for _, _, b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                rest = s.orelse
                s.orelse = []
                b[i + 1:i + 1] = rest
                ch = True
            i += 1
    return ch


def t_flip(fn):
    ch = False
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in m and not isinstance(x.comparators[0], ast.Constant):
            x.left, x.comparators[0] = x.comparators[0], x.left
            x.ops[0] = m[type(x.ops[0])]()
            ch = True
    return ch


def t_notin(fn):
    ch = [False]

    class R(ast.NodeTransformer):
        def visit_Compare(self, x):
            self.generic_visit(x)
            if len(x.ops) == 1 and type(x.ops[0]) in (ast.NotIn, ast.IsNot, ast.NotEq):
                ch[0] = True
                m = {ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.NotEq: ast.Eq}
                if isinstance(x.ops[0], ast.NotEq) and not isinstance(x.comparators[0], ast.Constant):
                    return x
                return ast.UnaryOp(ast.Not(), ast.Compare(x.left, [m[type(x.ops[0])]()], x.comparators))
            return x
    R().visit(fn)
    return ch[0]


def t_demorgan(fn):
    ch = [False]

    def tr(t):
        if isinstance(t, ast.BoolOp):
            ch[0] = True
            return ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(t.op, ast.And) else ast.And(), [neg(tr(v)) for v in t.values]))
        return t

    for x in ast.walk(fn):
        if isinstance(x, (ast.If, ast.While, ast.IfExp)):
            x.test = tr(x.test)
        if isinstance(x, ast.comprehension):
            x.ifs = [tr(i) for i in x.ifs]
    return ch[0]


def t_noop(fn):
    i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    fn.body.insert(i, assign("unused_marker", ast.Constant(None)))
    fn.body.insert(i, ast.Pass())
    return True


def t_kwrev(fn):
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and sum(k.arg is not None for k in x.keywords) == len(x.keywords) > 1:
            x.keywords.reverse()
            ch = True
    return ch


SIGS = {}


def t_pos2kw(fn):
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and x.args and not any(isinstance(a, ast.Starred) for a in x.args):
            n = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else None
            if isinstance(x.func, ast.Attribute) and not (isinstance(x.func.value, ast.Name) and x.func.value.id in ("self", "cls")):
                continue
            sg = SIGS.get(n)
            if sg and len(x.args) <= len(sg):
                kws = [ast.keyword(p, a) for p, a in zip(sg, x.args)]
                x.keywords = kws + x.keywords
                x.args = []
                ch = True
    return ch


def t_kw2pos(fn):
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and x.keywords and all(k.arg for k in x.keywords) and not any(isinstance(a, ast.Starred) for a in x.args):
            n = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else None
            if isinstance(x.func, ast.Attribute) and not (isinstance(x.func.value, ast.Name) and x.func.value.id in ("self", "cls")):
                continue
            sg = SIGS.get(n)
            if not sg:
                continue
            kd = {k.arg: k.value for k in x.keywords}
            i = len(x.args)
            while i < len(sg) and sg[i] in kd:
                x.args.append(kd.pop(sg[i]))
                i += 1
                ch = True
            x.keywords = [k for k in x.keywords if k.arg in kd]
    return ch


def t_cont2if(fn):
    ch = False
    for o, f, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and i + 1 < len(b) and isinstance(o, (ast.For, ast.While)) and f == "body":
                s.test = neg(s.test)
                s.body = b[i + 1:]
                del b[i + 1:]
                ch = True
                break
    return ch


def t_if2cont(fn):
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.body[-1], ast.If) and not x.body[-1].orelse:
            s = x.body.pop()
            x.body += [ast.If(neg(s.test), [ast.Continue()], [])] + s.body
            ch = True
    return ch


def t_tern2if(fn):
    ch = False
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                v = s.value
                b[i] = ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
                ch = True
            elif isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
                v = s.value
                b[i] = ast.If(v.test, [ast.Assign([copy.deepcopy(s.targets[0])], v.body, lineno=0)], [ast.Assign([copy.deepcopy(s.targets[0])], v.orelse, lineno=0)])
                ch = True
    return ch


def t_if2tern(fn):
    ch = False
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                p, q = s.body[0], s.orelse[0]
                if isinstance(p, ast.Return) and isinstance(q, ast.Return) and p.value is not None and q.value is not None:
                    b[i] = ast.Return(ast.IfExp(s.test, p.value, q.value))
                    ch = True
                elif (isinstance(p, ast.Assign) and isinstance(q, ast.Assign) and len(p.targets) == 1 and ast.dump(p.targets[0]) == ast.dump(q.targets[0])):
                    b[i] = ast.Assign(p.targets, ast.IfExp(s.test, p.value, q.value), lineno=0)
                    ch = True
    return ch


def t_default_then_if(fn):
    """if c: x = a else: x = b   ->   x = b; if c: x = a   (b a constant)"""
    ch = False
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                p, q = s.body[0], s.orelse[0]
                if (isinstance(p, ast.Assign) and isinstance(q, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and ast.dump(p.targets[0]) == ast.dump(q.targets[0])
                        and not calls(q.value) and p.targets[0].id not in names(s.test) | names(p.value)):
                    s.orelse = []
                    b.insert(i, q)
                    ch = True
                    break
    return ch


def t_items(fn):
    ch = False
    for x in ast.walk(fn):
        if (isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Attribute) and x.iter.func.attr == "items" and not x.iter.args
                and isinstance(x.iter.func.value, ast.Name) and isinstance(x.target, ast.Tuple) and len(x.target.elts) == 2 and isinstance(x.target.elts[0], ast.Name)):
            d = x.iter.func.value
            k, v = x.target.elts
            x.iter = name(d.id)
            x.target = k
            x.body.insert(0, ast.Assign([v], ast.Subscript(name(d.id), name(k.id), ast.Load()), lineno=0))
            ch = True
    return ch


def t_enum_counter(fn):
    ch = False
    for _, _, b in blocks(fn):
        for i, x in enumerate(b):
            if (isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == "enumerate" and len(x.iter.args) == 1
                    and not x.iter.keywords and isinstance(x.target, ast.Tuple) and isinstance(x.target.elts[0], ast.Name)
                    and not any(isinstance(y, ast.Continue) for y in ast.walk(x))):
                n = x.target.elts[0].id
                b.insert(i, assign(n, ast.Constant(0)))
                x.target = x.target.elts[1]
                x.iter = x.iter.args[0]
                x.body.append(ast.AugAssign(name(n, True), ast.Add(), ast.Constant(1)))
                ch = True
                break
    return ch


def t_enum_zip(fn):
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == "enumerate" and len(x.iter.args) == 1 and not x.iter.keywords and isinstance(x.iter.args[0], (ast.Name, ast.Attribute)):
            a = x.iter.args[0]
            x.iter = ast.Call(name("zip"), [ast.Call(name("range"), [ast.Call(name("len"), [copy.deepcopy(a)], [])], []), a], [])
            ch = True
    return ch


def t_swap(fn):
    ch = False
    for _, _, b in blocks(fn):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if all(isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], (ast.Name, ast.Attribute)) for q in (s, t)):
                ts, tt = s.targets[0], t.targets[0]
                pure = lambda v: not any(isinstance(y, ast.Call) and not (isinstance(y.func, ast.Name) and y.func.id in ("len", "set", "list", "dict", "deepcopy", "Composition", "Element", "sum", "tuple")) for y in ast.walk(v))
                if isinstance(ts, ast.Attribute) or isinstance(tt, ast.Attribute):
                    ok = (isinstance(ts, ast.Attribute) and isinstance(tt, ast.Attribute) and all(isinstance(q, ast.Name) for q in (ts.value, tt.value)) and ts.attr != tt.attr
                          and not any(isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "self" for v in (s.value, t.value) for y in ast.walk(v)) and pure(s.value) and pure(t.value))
                else:
                    ok = ts.id != tt.id and ts.id not in names(t.value) and tt.id not in names(s.value) and pure(s.value) and pure(t.value)
                if ok:
                    b[i], b[i + 1] = t, s
                    ch = True
                    i += 1
            i += 1
    return ch


def t_inline(fn):
    ch = False
    for _, _, b in blocks(fn):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, (ast.Assign, ast.Return, ast.Expr)) and t.value is not None:
                n = s.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load)]
                stores = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store)]
                here = [x for x in ast.walk(t.value) if isinstance(x, ast.Name) and x.id == n]
                deep = [x for c in ast.walk(t.value) if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda, ast.IfExp, ast.BoolOp)) for x in ast.walk(c)]
                if len(uses) == 1 and len(stores) == 1 and len(here) == 1 and here[0] not in deep:
                    class R(ast.NodeTransformer):
                        def visit_Name(self, x):
                            return s.value if x is here[0] else x
                    t.value = R().visit(t.value)
                    del b[i]
                    ch = True
                    continue
            i += 1
    return ch


def t_anyall_loop(fn):
    ch = False
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("any", "all") and len(s.value.args) == 1 and isinstance(s.value.args[0], (ast.GeneratorExp, ast.ListComp)):
                c = s.value.args[0]
                if not comp_safe(fn, c):
                    continue
                isany = s.value.func.id == "any"
                body = [ast.If(c.elt if isany else neg(c.elt), [ast.Return(ast.Constant(isany))], [])]
                for g in reversed(c.generators):
                    for q in reversed(g.ifs):
                        body = [ast.If(q, body, [])]
                    body = [ast.For(g.target, g.iter, body, [], lineno=0)]
                b[i:i + 1] = body + [ast.Return(ast.Constant(not isany))]
                ch = True
                break
    return ch


def t_loop_anyall(fn):
    """for x in S: if P: return True / return False -> return any(...)"""
    ch = False
    for _, _, b in blocks(fn):
        for i in range(len(b) - 1):
            f, r = b[i], b[i + 1]
            if (isinstance(f, ast.For) and not f.orelse and len(f.body) == 1 and isinstance(f.body[0], ast.If) and not f.body[0].orelse and len(f.body[0].body) == 1
                    and isinstance(f.body[0].body[0], ast.Return) and isinstance(r, ast.Return) and all(isinstance(getattr(q, "value", None), ast.Constant) and isinstance(q.value.value, bool) for q in (f.body[0].body[0], r))
                    and f.body[0].body[0].value.value != r.value.value):
                isany = f.body[0].body[0].value.value
                t = f.body[0].test
                b[i:i + 2] = [ast.Return(ast.Call(name("any" if isany else "all"), [ast.GeneratorExp(t if isany else neg(t), [ast.comprehension(f.target, f.iter, [], 0)])], []))]
                ch = True
                break
    return ch


def t_flag_any(fn):
    """if any(P for ..): -> flag loop"""
    ch = False
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If):
                t, ng = s.test, False
                if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    t, ng = t.operand, True
                if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("any", "all") and len(t.args) == 1 and isinstance(t.args[0], (ast.GeneratorExp, ast.ListComp)) and comp_safe(fn, t.args[0]) and len(t.args[0].generators) == 1:
                    c = t.args[0]
                    isany = t.func.id == "any"
                    n = Fresh.get("found")
                    body = [ast.If(c.elt if isany else neg(c.elt), [assign(n, ast.Constant(isany)), ast.Break()], [])]
                    g = c.generators[0]
                    for q in reversed(g.ifs):
                        body = [ast.If(q, body, [])]
                    s.test = neg(name(n)) if ng else name(n)
                    b[i:i] = [assign(n, ast.Constant(not isany)), ast.For(g.target, g.iter, body, [], lineno=0)]
                    ch = True
                    break
    return ch


def t_split_and(fn):
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And):
            v = x.test.values
            x.test = v[0]
            x.body = [ast.If(v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:]), x.body, [])]
            ch = True
    return ch


def t_join_if(fn):
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], ast.If) and not x.body[0].orelse:
            x.test = ast.BoolOp(ast.And(), [x.test, x.body[0].test])
            x.body = x.body[0].body
            ch = True
    return ch


def t_aug(fn):
    ch = [False]

    class R(ast.NodeTransformer):
        def visit_AugAssign(self, x):
            if isinstance(x.target, ast.Name) and isinstance(x.op, (ast.Add, ast.Mult, ast.Sub)) and not isinstance(x.value, (ast.List, ast.ListComp)):
                ch[0] = True
                return assign(x.target.id, ast.BinOp(name(x.target.id), x.op, x.value))
            return x
    R().visit(fn)
    return ch[0]


def t_tuple_split(fn):
    ch = False
    for _, _, b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts) and all(isinstance(e, ast.Name) for e in s.targets[0].elts):
                tn = {e.id for e in s.targets[0].elts}
                if not tn & names(s.value):
                    new = [assign(e.id, v) for e, v in zip(s.targets[0].elts, s.value.elts)]
                    b[i:i + 1] = new
                    i += len(new) - 1
                    ch = True
            i += 1
    return ch


def t_list_iter(fn):
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.iter, (ast.Name, ast.Attribute)):
            x.iter = ast.Call(name("list"), [x.iter], [])
            ch = True
    return ch


def t_gen_list(fn):
    ch = [False]

    class R(ast.NodeTransformer):
        def visit_Call(self, x):
            self.generic_visit(x)
            if isinstance(x.func, ast.Name) and x.func.id in ("any", "all", "sum", "min", "max", "tuple", "sorted", "frozenset") and len(x.args) >= 1 and isinstance(x.args[0], ast.GeneratorExp):
                x.args[0] = ast.ListComp(x.args[0].elt, x.args[0].generators)
                ch[0] = True
            elif isinstance(x.func, ast.Name) and x.func.id in ("any", "all", "sum", "min", "max", "tuple", "sorted") and len(x.args) == 1 and isinstance(x.args[0], ast.ListComp):
                x.args[0] = ast.GeneratorExp(x.args[0].elt, x.args[0].generators)
                ch[0] = True
            return x

        def visit_SetComp(self, x):
            self.generic_visit(x)
            ch[0] = True
            return ast.Call(name("set"), [ast.GeneratorExp(x.elt, x.generators)], [])

        def visit_DictComp(self, x):
            self.generic_visit(x)
            ch[0] = True
            return ast.Call(name("dict"), [ast.GeneratorExp(ast.Tuple([x.key, x.value], ast.Load()), x.generators)], [])
    R().visit(fn)
    return ch[0]


def t_setcomp(fn):
    ch = [False]

    class R(ast.NodeTransformer):
        def visit_Call(self, x):
            self.generic_visit(x)
            if isinstance(x.func, ast.Name) and len(x.args) == 1 and isinstance(x.args[0], (ast.GeneratorExp, ast.ListComp)) and not x.keywords:
                if x.func.id == "set":
                    ch[0] = True
                    return ast.SetComp(x.args[0].elt, x.args[0].generators)
                if x.func.id == "list":
                    ch[0] = True
                    return ast.ListComp(x.args[0].elt, x.args[0].generators)
                if x.func.id == "dict" and isinstance(x.args[0].elt, ast.Tuple):
                    ch[0] = True
                    return ast.DictComp(*x.args[0].elt.elts, x.args[0].generators)
            return x
    R().visit(fn)
    return ch[0]


def t_filter_comp(fn):
    """list(filter(lambda x: P, S)) / list(map(lambda...)) -> comprehension"""
    ch = [False]

    class R(ast.NodeTransformer):
        def visit_Call(self, x):
            self.generic_visit(x)
            if isinstance(x.func, ast.Name) and x.func.id in ("filter", "map") and len(x.args) == 2 and isinstance(x.args[0], ast.Lambda):
                l = x.args[0]
                v = l.args.args[0].arg
                ch[0] = True
                g = ast.comprehension(name(v, True), x.args[1], [l.body] if x.func.id == "filter" else [], 0)
                return ast.GeneratorExp(name(v) if x.func.id == "filter" else l.body, [g])
            return x
    R().visit(fn)
    return ch[0]


def t_sorted_sort(fn):
    ch = False
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "sorted" and len(s.value.args) == 1:
                n = s.targets[0].id if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) else Fresh.get("srt")
                if isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name):
                    continue
                new = [assign(n, ast.Call(name("list"), [s.value.args[0]], [])), ast.Expr(ast.Call(ast.Attribute(name(n), "sort", ast.Load()), [], s.value.keywords))]
                if isinstance(s, ast.Return):
                    new.append(ast.Return(name(n)))
                b[i:i + 1] = new
                ch = True
                break
    return ch


def t_append_plus(fn):
    ch = False
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("append", "extend") and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id in locals_of(fn)[0]:
                v = s.value.args[0]
                if isinstance(v, ast.GeneratorExp):
                    continue
                b[i] = ast.AugAssign(name(s.value.func.value.id, True), ast.Add(), ast.List([v], ast.Load()) if s.value.func.attr == "append" else ast.Call(name("list"), [v], []))
                ch = True
    return ch


def t_dict_build(fn):
    ch = False
    for _, _, b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(v, ast.Dict) and v.keys and all(k is not None for k in v.keys):
                if isinstance(s, ast.Assign):
                    if not isinstance(s.targets[0], ast.Name) or s.targets[0].id in names(v):
                        i += 1
                        continue
                    n = s.targets[0].id
                else:
                    n = Fresh.get("dct")
                new = [assign(n, ast.Dict([], []))] + [ast.Assign([ast.Subscript(name(n), k, ast.Store())], x, lineno=0) for k, x in zip(v.keys, v.values)]
                if isinstance(s, ast.Return):
                    new.append(ast.Return(name(n)))
                b[i:i + 1] = new
                i += len(new) - 1
                ch = True
            i += 1
    return ch


def t_dict_call(fn):
    """{"a": x} -> dict(a=x)"""
    ch = [False]

    class R(ast.NodeTransformer):
        def visit_Dict(self, x):
            self.generic_visit(x)
            if x.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in x.keys):
                ch[0] = True
                return ast.Call(name("dict"), [], [ast.keyword(k.value, v) for k, v in zip(x.keys, x.values)])
            return x
    R().visit(fn)
    return ch[0]


def t_elif(fn):
    """elif chain -> nested else/if is the same AST; turn returns in chains into separate ifs"""
    return False


def t_hoist_self(fn):
    """self._x used twice or more and never stored -> local"""
    cnt = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr.startswith("_") and not x.attr.startswith("__"):
            cnt.setdefault(x.attr, []).append(x)
    if not fn.args.args or fn.args.args[0].arg != "self":
        return False
    called = {id(c.func) for c in ast.walk(fn) if isinstance(c, ast.Call)}
    ch = False
    fns = {a for a, l in cnt.items() if any(id(x) in called or not isinstance(x.ctx, ast.Load) for x in l)}
    i0 = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    if any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "self" for c in ast.walk(fn)):
        return False
    for a, l in cnt.items():
        if len(l) >= 1 and a not in fns and a in FIELDS:
            n = "field" + a
            ids_ = {id(x) for x in l}

            class R(ast.NodeTransformer):
                def visit_Attribute(self, x):
                    self.generic_visit(x)
                    return name(n) if id(x) in ids_ else x
            R().visit(fn)
            fn.body.insert(i0, assign(n, ast.Attribute(name("self"), a, ast.Load())))
            ch = True
    return ch


FIELDS = set()


def t_lambda_def(fn):
    ch = False
    for _, _, b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and s.value is not None:
                ls = [x for x in ast.walk(s.value) if isinstance(x, ast.Lambda)]
                inner = {id(y) for c in ast.walk(s.value) if isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda)) for y in ast.walk(c) if y is not c}
                ls = [x for x in ls if id(x) not in inner]
                if ls:
                    l = ls[0]
                    n = Fresh.get("key_fn")
                    d = ast.FunctionDef(n, l.args, [ast.Return(l.body)], [], None, lineno=0, type_params=[])

                    class R(ast.NodeTransformer):
                        def visit_Lambda(self, x):
                            return name(n) if x is l else x
                    s.value = R().visit(s.value)
                    b.insert(i, d)
                    i += 1
                    ch = True
            i += 1
    return ch


def t_ann(fn):
    ch = False
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                b[i] = ast.AnnAssign(s.targets[0], name("object"), s.value, 1)
                ch = True
    return ch


def t_bool_ret(fn):
    """return <comparison> -> if ..: return True; return False"""
    ch = False
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and (isinstance(s.value, ast.Compare) or (isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("any", "all", "isinstance"))):
                b[i:i + 1] = [ast.If(s.value, [ast.Return(ast.Constant(True))], []), ast.Return(ast.Constant(False))]
                ch = True
                break
    return ch


def t_walrus(fn):
    return False


def t_isinst(fn):
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "isinstance" and isinstance(x.args[1], ast.Tuple):
            x.args[1].elts.reverse()
            ch = True
    return ch


def t_is_none(fn):
    """x or default -> x if x else default (names only)"""
    ch = [False]

    class R(ast.NodeTransformer):
        def visit_BoolOp(self, x):
            self.generic_visit(x)
            if isinstance(x.op, ast.Or) and len(x.values) == 2 and isinstance(x.values[0], (ast.Name, ast.Attribute)):
                ch[0] = True
                return ast.IfExp(copy.deepcopy(x.values[0]), x.values[0], x.values[1])
            return x
    R().visit(fn)
    return ch[0]


def t_get(fn):
    """d.get(k, v) -> d[k] if k in d else v"""
    ch = [False]

    class R(ast.NodeTransformer):
        def visit_Call(self, x):
            self.generic_visit(x)
            if isinstance(x.func, ast.Attribute) and x.func.attr == "get" and 1 <= len(x.args) <= 2 and isinstance(x.func.value, (ast.Name, ast.Attribute)) and ast.unparse(x.func.value) != "ray" and not calls(x.args[0]):
                ch[0] = True
                d = x.func.value
                return ast.IfExp(ast.Compare(x.args[0], [ast.In()], [d]), ast.Subscript(copy.deepcopy(d), copy.deepcopy(x.args[0]), ast.Load()), x.args[1] if len(x.args) == 2 else ast.Constant(None))
            return x
    R().visit(fn)
    return ch[0]


def t_fstr(fn):
    """string constants and log texts"""
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in ("logger", "warnings"):
            for a in ast.walk(x):
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    a.value += " (note)"
                    ch = True
        if isinstance(x, ast.Raise) and isinstance(x.exc, ast.Call):
            for a in x.exc.args:
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    a.value += " (see docs)"
                    ch = True
    return ch


def t_log(fn):
    i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    fn.body.insert(i, ast.parse("import logging as _lg").body[0])
    fn.body.insert(i + 1, ast.parse("_lg.getLogger(__name__).debug('entering')").body[0])
    return True


def t_reraise_guard(fn):
    """assert on a parameter's own identity"""
    par = [a.arg for a in fn.args.args]
    if not par:
        return False
    i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    fn.body.insert(i, ast.parse(f"assert {par[0]} is {par[0]}").body[0])
    return True


def t_while_idx(fn):
    """for i in range(n): B -> i = 0; while i < n: B; i += 1 (no continue)"""
    ch = False
    for _, _, b in blocks(fn):
        for k, x in enumerate(b):
            if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == "range" and len(x.iter.args) == 1 and not x.orelse and not any(isinstance(y, ast.Continue) for y in ast.walk(x)):
                n = x.target.id
                lim = Fresh.get("limit")
                w = ast.While(ast.Compare(name(n), [ast.Lt()], [name(lim)]), x.body + [ast.AugAssign(name(n, True), ast.Add(), ast.Constant(1))], [])
                b[k:k + 1] = [assign(lim, x.iter.args[0]), assign(n, ast.Constant(0)), w]
                ch = True
                break
    return ch


def t_not_len(fn):
    return False


# transforms that also add a function next to fn: (fn, is_method) -> list of new function nodes or None
def x_body(fn, meth):
    """whole body into a helper with the same parameters"""
    if fn.name.startswith("__") and fn.name != "__init__":
        pass
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)) or fn.decorator_list and not prop_only(fn):
        return None
    if any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(fn)) and not meth:
        return None
    if fn.args.vararg or fn.args.kwarg or fn.args.posonlyargs:
        return None
    h = copy.deepcopy(fn)
    h.name = "_do_" + fn.name.strip("_")
    h.decorator_list = []
    i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    ps = [a.arg for a in fn.args.args] + [a.arg for a in fn.args.kwonlyargs]
    if meth and ps and ps[0] == "self":
        call = ast.Call(ast.Attribute(name("self"), h.name, ast.Load()), [name(p) for p in ps[1:]], [])
    elif not meth:
        call = ast.Call(name(h.name), [name(p) for p in ps], [])
    else:
        return None
    h.args.defaults = []
    h.args.kw_defaults = []
    h.args.args = h.args.args + h.args.kwonlyargs
    h.args.kwonlyargs = []
    fn.body[i:] = [ast.Return(call)]
    return [h]


def prop_only(fn):
    return all(isinstance(d, ast.Name) and d.id in ("property",) for d in fn.decorator_list)


def x_expr(fn, meth):
    """largest right-hand side into a module-level helper"""
    st, par = locals_of(fn)
    best = None
    for _, _, b in blocks(fn):
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant, ast.Attribute)):
                if any(isinstance(x, (ast.Yield, ast.Lambda, ast.Await, ast.NamedExpr)) or isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(s.value)):
                    continue
                n = len(list(ast.walk(s.value)))
                if best is None or n > best[0]:
                    best = (n, s)
    if best is None:
        return None
    s = best[1]
    bound = {y.id for x in ast.walk(s.value) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}
    free = sorted((names(s.value) & (st | par)) - (bound - par - {y for y in st if any(isinstance(q, ast.Assign) and any(isinstance(z, ast.Name) and z.id == y for t in q.targets for z in ast.walk(t)) for q in ast.walk(fn))}))
    if "cls" in free and meth:
        return None
    fnm = "_compute_" + fn.name.strip("_")
    if any(isinstance(x, ast.FunctionDef) and x is not fn for x in ast.walk(fn)):
        return None
    if "self" in free and meth:
        rest = [f for f in free if f != "self"]
        call = ast.Call(ast.Attribute(name("self"), fnm, ast.Load()), [name(f) for f in rest], [])
        args = ["self"] + rest
        dec = []
    else:
        if meth:
            return None
        call = ast.Call(name(fnm), [name(f) for f in free], [])
        args, dec = free, []
    h = ast.FunctionDef(fnm, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), [ast.Return(s.value)], dec, None, lineno=0, type_params=[])
    s.value = call
    return [h]


def x_loopbody(fn, meth):
    """body of the first for loop that only calls methods (no assignment escaping) into a helper"""
    st, par = locals_of(fn)
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and len(x.body) >= 2 and not any(isinstance(y, (ast.Continue, ast.Break, ast.Return, ast.Yield, ast.Lambda, ast.FunctionDef)) for z in x.body for y in ast.walk(z)):
            w = {y.id for z in x.body for y in ast.walk(z) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
            inside = {id(y) for z in x.body for y in ast.walk(z)}
            if any(isinstance(y, ast.Name) and y.id in w and id(y) not in inside for y in ast.walk(fn)):
                continue
            if any(isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name) for z in x.body for y in ast.walk(z)):
                continue
            free = sorted(({n for z in x.body for n in names(z)} & (st | par)) - w)
            if "cls" in free:
                continue
            fnm = "_step_" + fn.name.strip("_")
            if "self" in free and meth:
                rest = [f for f in free if f != "self"]
                call = ast.Call(ast.Attribute(name("self"), fnm, ast.Load()), [name(f) for f in rest], [])
                args = ["self"] + rest
            elif meth:
                continue
            else:
                call = ast.Call(name(fnm), [name(f) for f in free], [])
                args = free
            h = ast.FunctionDef(fnm, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), x.body, [], None, lineno=0, type_params=[])
            x.body = [ast.Expr(call)]
            return [h]
    return None


def x_static(fn, meth):
    """largest self-free right-hand side of a method into a module-level function"""
    if not meth:
        return None
    st, par = locals_of(fn)
    best = None
    for _, _, b in blocks(fn):
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant, ast.Attribute)):
                if any(isinstance(x, (ast.Yield, ast.Lambda, ast.NamedExpr)) or isinstance(x, ast.Name) and x.id in ("super", "self", "cls") for x in ast.walk(s.value)):
                    continue
                n = len(list(ast.walk(s.value)))
                if best is None or n > best[0]:
                    best = (n, s)
    if best is None or any(isinstance(x, ast.FunctionDef) and x is not fn for x in ast.walk(fn)):
        return None
    s = best[1]
    bound = {y.id for x in ast.walk(s.value) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}
    free = sorted((names(s.value) & (st | par)) - bound)
    if any(isinstance(q, ast.Name) and q.id in bound and isinstance(q.ctx, ast.Store) and id(q) not in {id(z) for z in ast.walk(s.value)} for q in ast.walk(fn)):
        return None
    fnm = "_helper_" + fn.name.strip("_")
    h = ast.FunctionDef(fnm, ast.arguments([], [ast.arg(a) for a in free], None, [], [], None, []), [ast.Return(s.value)], [], None, lineno=0, type_params=[])
    h._module = True
    s.value = ast.Call(name(fnm), [name(f) for f in free], [])
    return [h]


TR = {k[2:]: v for k, v in globals().items() if k.startswith("t_")}
XT = {k[2:]: v for k, v in globals().items() if k.startswith("x_")}


def apply(mod, lineno, fname, tr):
    """source of module with transform applied to one function, or None"""
    tree = copy.deepcopy(mod.tree)
    Fresh.n = 0
    for par in ast.walk(tree):
        for i, x in enumerate(getattr(par, "body", []) if isinstance(getattr(par, "body", None), list) else []):
            if isinstance(x, ast.FunctionDef) and x.name == fname and x.lineno == lineno:
                if tr in TR:
                    if not TR[tr](x):
                        return None
                else:
                    h = XT[tr](x, isinstance(par, ast.ClassDef))
                    if not h:
                        return None
                    if getattr(h[0], "_module", False):
                        k = next(j for j, q in enumerate(tree.body) if q is par)
                        tree.body[k:k] = h
                    else:
                        par.body[i + 1:i + 1] = h
                ast.fix_missing_locations(tree)
                s = ast.unparse(tree)
                ast.parse(s)
                return s
    return None


def setup(prog):
    seen = {}
    for f in prog.all_funcs():
        a = f.node.args
        if a.vararg or a.posonlyargs:
            seen.setdefault(f.name, []).append(None)
            continue
        ps = [x.arg for x in a.args]
        if ps and ps[0] in ("self", "cls"):
            ps = ps[1:]
        seen.setdefault(f.name, []).append(tuple(ps))
    for k, v in seen.items():
        if None not in v and len(set(v)) == 1 and not k.startswith("__") and k not in dir(builtins):
            SIGS[k] = list(v[0])
    for c in prog.by_cls:
        m = prog.by_cls[c].members.get("__init__") if hasattr(prog.by_cls[c], "members") else None
        if m is not None and not m.node.args.vararg:
            SIGS[c] = [x.arg for x in m.node.args.args][1:]
    for f in prog.all_funcs():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self":
                FIELDS.add(x.attr)


_RULES = {}
KNOWN = {(x["property"], x["key"]) for x in json.load(open(os.path.join(os.path.dirname(__file__), "..", "known_findings.json")))["findings"]}


RESOLVE = float(os.environ.get("RESOLVE", "0"))


def run_all(pids):
    out = {}

    def go():
        prog = model.Program()
        for pid in pids:
            try:
                ctx = Ctx(prog)
                m = importlib.import_module(f"rxnsa.rules.{pid.lower()}")
                m.rules(ctx)
                if RESOLVE:
                    ctx.resolve(RESOLVE)
                hold = sum(o.status == HOLD for o in ctx.obs)
                out[pid] = ([(o.key, o.detail) for o in ctx.obs if o.status == VIOL and (pid, o.key) not in KNOWN], [(o.key, o.detail) for o in ctx.obs if o.status == INC],
                            hold >= m.FLOOR, list(ctx.broken))
            except BaseException as e:  # noqa: BLE001
                import traceback
                out[pid] = ([], [], False, [traceback.format_exc()])

    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out


def job(a):
    modname, qual, lineno, fname, tr, pids, src = a
    threading.stack_size(1 << 28)
    model.OVERRIDE.clear()
    model.OVERRIDE[modname] = src
    t0 = time.time()
    r = run_all(pids)
    return qual, tr, r, time.time() - t0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-t", default="")
    ap.add_argument("-f", default="")
    ap.add_argument("-p", default="")
    ap.add_argument("-i", action="store_true", help="also list inconclusive")
    ap.add_argument("-s", action="store_true", help="show source of the variant of reported ones")
    ap.add_argument("--emit", default="", help="write the tree with the transform applied everywhere below this directory")
    o = ap.parse_args()
    threading.stack_size(1 << 28)
    prog = model.Program()
    setup(prog)
    trs = o.t.split(",") if o.t else list(TR) + list(XT)
    allp = o.p.upper().split(",") if o.p else ids()
    files = {}
    analysed = {}
    for p in allp:
        m = importlib.import_module(f"rxnsa.rules.{p.lower()}")
        files[p] = set(m.META["files"])
    base = {p: {k for k, _ in v[1]} for p, v in run_all(allp).items()}
    jobs, nsrc = [], {}
    for f in prog.all_funcs():
        if o.f and o.f not in f.qual:
            continue
        pids = [p for p in allp if any(f.file.endswith(x) or x.endswith(f.file) for x in files[p])]
        if not pids:
            continue
        for tr in trs:
            try:
                src = apply(f.mod, f.node.lineno, f.name, tr)
            except Exception as e:  # noqa: BLE001
                print("transform failed", tr, f.qual, repr(e)[:100])
                continue
            if src is None:
                continue
            jobs.append((f.mod.name, f.qual, f.node.lineno, f.name, tr, pids, src))
    print(len(jobs), "variants")
    nv = ni = nb = 0
    per = {}
    with mp.Pool(6, maxtasksperchild=6) as pool:
        for (j, (qual, tr, r, dt)) in zip(jobs, pool.imap(job, jobs, chunksize=2)):
            for p, (v, i, ok, br) in r.items():
                if v:
                    nv += 1
                    per.setdefault(tr, [0, 0])[0] += 1
                    print(f"ALARM {p} {qual} [{tr}] {[(k, d[:200]) for k, d in v[:2]]}")
                    if o.s:
                        print("\n".join("      " + l for l in ast.unparse(find(j[6], j[3])).splitlines()))
                if not ok:
                    nb += 1
                    print(f"NOANSWER {p} {qual} [{tr}] {br[:1]}")
                ni2 = [k for k in i if k[0] not in base[p]]
                if ni2:
                    ni += 1
                    per.setdefault(tr, [0, 0])[1] += 1
                    if o.i:
                        print(f"inc   {p} {qual} [{tr}] {[(k, d[:150]) for k, d in ni2[:2]]}")
            if dt > 30:
                print("slow", qual, tr, round(dt))
    print("alarms", nv, "no answer", nb, "inconclusive", ni)
    for t, (a, b) in sorted(per.items(), key=lambda x: -x[1][0] * 1000 - x[1][1]):
        print(f"  {t:16} alarms {a} inconclusive {b}")


def find(src, fname):
    for x in ast.walk(ast.parse(src)):
        if isinstance(x, ast.FunctionDef) and x.name == fname:
            return x


if __name__ == "__main__":
    main()
