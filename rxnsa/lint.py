"""Syntactic rules about what value numbering identifies on purpose: copies, number types, inherited methods, calls that must bind."""

from __future__ import annotations

import ast

from .check import HOLD, INC, VIOL
from .terms import FALSE, b_and, b_not, show


def resolve_local(fn, e, depth=6):
    """the expressions a local name may stand for in fn (the node itself when it is not a plainly assigned local)"""
    if depth == 0:
        return [e]
    if isinstance(e, ast.IfExp):
        return resolve_local(fn, e.body, depth - 1) + resolve_local(fn, e.orelse, depth - 1)
    if isinstance(e, ast.NamedExpr):
        return resolve_local(fn, e.value, depth - 1)
    if isinstance(e, ast.Name):
        out = []
        for s in ast.walk(fn):
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets):
                out += resolve_local(fn, s.value, depth - 1)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name) and s.target.id == e.id:
                out += resolve_local(fn, s.value, depth - 1)
        return out or [e]
    return [e]


def shared_arg(ctx, rule, cls, name, callees, kw, what):
    """argument `kw` of the calls of `callees` in cls.name is a copy, never an attribute of another object as it is"""

    def go():
        f, _ = ctx.target(cls, name)
        bad = None
        for c in ast.walk(f.node):
            if isinstance(c, ast.Call) and tail(c.func) in callees:
                for k in c.keywords:
                    if k.arg == kw:
                        for v in resolve_local(f.node, k.value):
                            if isinstance(v, ast.Attribute):
                                bad = (ast.unparse(v), c.lineno)
        ctx.holds(rule, f"{cls}.{name}:{kw}", bad is None, f"{kw}={bad and bad[0]}: {what}", f, bad and bad[1])

    ctx.guard(rule, f"{cls}.{name}:{kw}", go)


def skipped(ctx, rule, cls, name, effect, raisers, what):
    """in cls.name, no call of .effect() is skipped because an earlier lookup in the same try body failed and the error was swallowed"""

    def has(n, names):
        return any(isinstance(c, ast.Call) and tail(c.func) in names for c in ast.walk(n))

    def go():
        f, _ = ctx.target(cls, name)
        bad = None
        for t in ast.walk(f.node):
            if isinstance(t, ast.Try) and t.handlers:
                rest = [*t.handlers, *t.finalbody]
            elif isinstance(t, ast.With) and any(isinstance(i.context_expr, ast.Call) and tail(i.context_expr.func) == "suppress" for i in t.items):
                rest = []
            else:
                continue
            if any(has(h, (effect,)) or any(isinstance(x, ast.Raise) for x in ast.walk(h)) for h in rest):
                continue
            seen = False
            for s in [*t.body, *getattr(t, "orelse", [])]:
                if seen and has(s, (effect,)):
                    bad = s.lineno
                seen = seen or has(s, raisers) or any(isinstance(x, ast.Subscript) and tail(x.value) == "min_entries_by_formula" for x in ast.walk(s))
        ctx.holds(rule, f"{cls}.{name}:{effect} not skipped", bad is None, what, f, bad)

    ctx.guard(rule, f"{cls}.{name}:{effect} not skipped", go)


def tail(e):
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else ""


def float_store(ctx, rule, cls, name, attr):
    """self.<attr> is stored as an array of floats"""

    def go():
        f, _ = ctx.target(cls, name)
        bad = None
        for s in ast.walk(f.node):
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr for t in s.targets):
                for v in resolve_local(f.node, s.value):
                    if isinstance(v, ast.Call) and tail(v.func) in ("array", "asarray") and len(v.args) == 1 and not v.keywords and "float" not in ast.unparse(v):
                        inner = resolve_local(f.node, v.args[0])
                        if all("float" not in ast.unparse(x) for x in inner):
                            bad = s.lineno
                    elif isinstance(v, (ast.Name, ast.List, ast.ListComp)) and "float" not in ast.unparse(v):
                        bad = s.lineno
        ctx.holds(rule, f"{cls}.{attr}:float", bad is None, f"{attr} keeps the number type it is given: integers are not scaled and do not multiply phases", f, bad)

    ctx.guard(rule, f"{cls}.{attr}", go)


def own(ctx, rule, cls, name, why):
    """the class (or a base of this package) defines the method; the inherited external one does something else"""

    def go():
        c = ctx.p.cls(cls)
        f = ctx.p.find(c, name)
        ctx.add(rule, f"{cls}.{name}:own", HOLD if f is not None else VIOL, "" if f is not None else f"{cls} has no {name} of its own: {why}", f or ctx.p.find(c, "__init__"))

    ctx.guard(rule, f"{cls}.{name}:own", go)


def binds(ctx, rule, n, c, name):
    """cls(...) in the class method `name` of class c (as inherited) binds to the constructor's parameters"""
    f = ctx.p.find(c, name)
    if f is None or not f.is_class:
        return
    ps, kwargs, varargs = ctx.e0.ctor_params(c)
    if ps is None:
        return
    names = [p[0] for p in ps]
    first = f.node.args.args[0].arg if f.node.args.args else "cls"
    init = ctx.p.find(c, "__init__")
    from .check import required

    need = (required(init.node) - {init.node.args.args[0].arg}) if init is not None else None
    for k in ast.walk(f.node):
        if not (isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id == first):
            continue
        if any(isinstance(a, ast.Starred) for a in k.args) or any(w.arg is None for w in k.keywords):
            continue
        bad = None
        if len(k.args) > len(names) and not varargs:
            bad = f"{len(k.args)} positional arguments for {len(names)} parameters"
        got = set(names[: len(k.args)])
        for w in k.keywords:
            if w.arg not in names and not kwargs:
                bad = f"the constructor has no parameter {w.arg}"
            if w.arg in got:
                bad = f"{w.arg} is given twice"
            got.add(w.arg)
        if need is not None and bad is None and need - got:
            bad = f"{sorted(need - got)} not given"
        ctx.holds(rule, f"{n}.{name}:binds", bad is None, f"the call {ast.unparse(k)[:60]} cannot construct a {n}: {bad}", f, k.lineno)


def raising_remove(ctx, rule, cls, name):
    """no element is taken out of a set with remove() unless it is known to be there"""

    def go():
        f, c = ctx.target(cls, name)
        res = ctx.e0.run(f, c)
        bad, unsure = False, any(isinstance(x, ast.Try) for x in ast.walk(f.node)) or "suppress" in {tail(x.func) for x in ast.walk(f.node) if isinstance(x, ast.Call)}
        for e in res.events:
            if e.kind != "remove" or b_and(e.guard, b_not(e.data[2])) is FALSE:
                continue
            if any("product" in show(d, 12) for d in e.loops) or "product" in show(e.guard, 12):
                unsure = True
            else:
                bad = True
        ctx.add(rule, f"{cls}.{name}:remove", INC if unsure else VIOL if bad else HOLD,
                "an element that may be missing is removed with remove(), which raises", f)

    ctx.guard(rule, f"{cls}.{name}:remove", go)


def own_entries(ctx, rule, cls, name, callee):
    """callee(x) in cls.name is never given a parameter (or a mere list of it) as it is"""

    def go():
        f, _ = ctx.target(cls, name)
        ps = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
        bad = None
        for c in ast.walk(f.node):
            if isinstance(c, ast.Call) and tail(c.func) == callee:
                for a in list(c.args[:1]) + [k.value for k in c.keywords if k.arg == "entries"]:
                    for v in resolve_local(f.node, a):
                        while isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("list", "set", "sorted", "tuple") and v.args:
                            v = v.args[0]
                        if isinstance(v, ast.Name) and v.id in ps or isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id in ps:
                            bad = (ast.unparse(v), c.lineno)
        ctx.holds(rule, f"{cls}.{name}:{callee}", bad is None, f"{callee} is made from {bad and bad[0]} itself: indexing it changes the caller's entries", f, bad and bad[1])

    ctx.guard(rule, f"{cls}.{name}:{callee}", go)
