"""Wrong specifications: every text that differs from a reference text by one mistake.

A function that the comparison leaves undecided, and that computes exactly what a wrong specification computes (same canonical
value), is in violation.  Mistakes that may leave the meaning alone (dropped conversions, dropped early exits) are not used.
"""

from __future__ import annotations

import ast
import copy

CMP = {ast.Lt: [ast.LtE, ast.Gt, ast.GtE], ast.LtE: [ast.Lt, ast.GtE, ast.Gt], ast.Gt: [ast.GtE, ast.Lt, ast.LtE],
       ast.GtE: [ast.Gt, ast.LtE, ast.Lt], ast.Eq: [ast.NotEq, ast.Lt, ast.Gt, ast.In], ast.NotEq: [ast.Eq, ast.Lt, ast.Gt], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is], ast.In: [ast.NotIn, ast.Eq], ast.NotIn: [ast.In, ast.NotEq]}
BIN = {ast.Add: [ast.Sub, ast.Mult], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult, ast.FloorDiv], ast.BitOr: [ast.BitAnd, ast.Sub],
       ast.BitAnd: [ast.BitOr, ast.Sub], ast.FloorDiv: [ast.Div, ast.Mult], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}
FUNCS = [{"min", "max"}, {"any", "all"}, {"sum", "len"}, {"argmin", "argmax"}, {"zeros", "ones"}, {"floor", "ceil"},
         {"combinations", "permutations", "combinations_with_replacement", "product"}, {"vstack", "hstack"}, {"union", "intersection", "difference", "symmetric_difference"},
         {"issubset", "issuperset", "intersection", "isdisjoint"}, {"append", "extend"}, {"exp", "log"}, {"cumsum", "sum"},
         {"remove", "discard"}, {"keys", "values"}, {"add_nodes_from", "add_edges_from"}, {"predecessor_indices", "successor_indices"},
         {"get_all_edge_data", "get_edge_data"}, {"to_dict", "as_dict"}, {"rstrip", "lstrip"}, {"lower", "upper"}, {"update", "setdefault"},
         {"mean", "sum"}, {"mean", "max"}, {"mean", "min"}, {"floor", "round"}, {"issubset", "__eq__"}]
ATTRS = [{"reactants", "products", "compositions"}, {"reactant_entries", "product_entries", "entries"}, {"reactant_coeffs", "product_coeffs"},
         {"reactant_atomic_fractions", "product_atomic_fractions"}, {"energy", "energy_per_atom", "uncorrected_energy", "formation_energy_per_atom"},
         {"reduced_formula", "formula", "reduced_composition", "chemical_system", "alphabetical_formula"}, {"composition", "original_comp", "reduced_composition"}, {"formula", "alphabetical_formula"},
         {"elements", "open_elems"}, {"num_atoms", "num_sites"}, {"precursors", "targets", "target"}, {"entries", "entries_list", "all_entries", "stable_entries"},
         {"chemsys", "chemical_system", "total_chemical_system"}, {"e1", "e2"}, {"c1", "c2"}, {"entry_id", "unique_id"},
         {"all_entries", "stable_entries", "qhull_entries"}, {"x", "y"}, {"energy_uncertainty", "energy_uncertainty_per_atom"}]
BENIGN = {"list", "tuple", "set", "frozenset", "sorted", "iter", "tqdm", "deepcopy", "copy", "dict", "str", "int", "float", "bool", "array", "asarray", "Composition",
          "Element", "enumerate", "zip", "reversed", "cast", "put", "get", "repr", "squeeze", "flatten", "ravel", "tolist", "keys", "items", "values", "isinstance",
          "as_dict", "result", "from_dict", "range"}


def swap(name, groups):
    out = []
    for g in groups:
        if name in g:
            out += sorted(g - {name})
    return list(dict.fromkeys(out))


def wrong(src):
    """yield (text, what) most plausible first"""
    tree = ast.parse(src)
    fn = tree.body[0]
    seen = {ast.unparse(tree)}
    out = []
    nodes = list(ast.walk(tree))
    par = {}
    for i, n in enumerate(nodes):
        for f, v in ast.iter_fields(n):
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST):
                    par[id(c)] = (n, f)
    skip = set()
    for x in nodes:
        if isinstance(x, ast.Raise):
            skip |= {id(y) for y in ast.walk(x)} - {id(x)}
        if isinstance(x, ast.arguments):
            skip |= {id(y) for y in ast.walk(x)}
    idx = {id(n): i for i, n in enumerate(nodes)}

    def mut(n, f, prio, what):
        c = copy.deepcopy(tree)
        m = list(ast.walk(c))[idx[id(n)]]
        new = f(m)
        if isinstance(new, ast.AST) and new is not m:

            class R(ast.NodeTransformer):
                def visit(self, x):
                    return new if x is m else self.generic_visit(x)

            c = R().visit(c)
        try:
            t = ast.unparse(ast.fix_missing_locations(c))
        except Exception:  # noqa: BLE001
            return
        if t not in seen:
            seen.add(t)
            out.append((prio, len(out), t, what))

    def setter(a, v):
        def f(m):
            setattr(m, a, v() if callable(v) else v)
            return m

        return f

    loads = [n for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)]
    stores = {n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in fn.args.args + fn.args.kwonlyargs}
    called = {id(n.func) for n in nodes if isinstance(n, ast.Call)}
    attrs_of = {}
    for n in nodes:
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and id(n) not in called:
            attrs_of.setdefault(ast.unparse(n.value), set()).add(n.attr)
    for n in nodes:
        if id(n) in skip:
            continue
        u = ast.unparse(n)[:50] if not isinstance(n, (ast.Module, ast.FunctionDef, ast.expr_context, ast.operator, ast.cmpop, ast.boolop, ast.unaryop)) else ""
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    def f(m, k=k, new=new):
                        m.ops[k] = new()
                        return m
                    mut(n, f, 0, f"{u} -> {new.__name__}")
            if len(n.ops) == 1:
                for op in (ast.NotEq, ast.Eq, ast.Gt, ast.Lt, ast.GtE, ast.LtE):
                    def f(m, op=op):
                        m.ops, m.comparators = [op()], [ast.Constant(0)]
                        return m
                    if isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) or isinstance(n.comparators[0], ast.Attribute) and n.comparators[0].attr == "inf":
                        mut(n, f, 2, f"{u} -> {op.__name__} 0")
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
                def f(m):
                    m.left, m.comparators = [ast.Call(ast.Name("len", ast.Load()), [z], []) for z in (m.left, m.comparators[0])], None
                    m.left, m.comparators = m.left[0], [m.left[1]]
                    return m
                mut(n, f, 2, f"only the lengths compared in {u}")
                for at in ("reduced_formula", "formula", "chemical_system", "reduced_composition", "composition", "entry_id"):
                    def f(m, at=at):
                        m.left, m.comparators = ast.Attribute(m.left, at, ast.Load()), [ast.Attribute(m.comparators[0], at, ast.Load())]
                        return m
                    mut(n, f, 3, f"only {at} compared in {u}")
                neg = isinstance(n.ops[0], ast.NotEq)
                for meth in ("issubset", "issuperset", "intersection"):
                    def f(m, meth=meth):
                        e = ast.Call(ast.Attribute(m.left, meth, ast.Load()), [m.comparators[0]], [])
                        return ast.UnaryOp(ast.Not(), e) if neg else e
                    mut(n, f, 2, f"{u} -> {meth}")
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                neg = isinstance(n.ops[0], ast.NotIn)

                def f(m):
                    m.ops = [ast.NotEq() if neg else ast.Eq()]
                    m.left, m.comparators = m.comparators[0], [ast.Set([m.left])]
                    return m
                mut(n, f, 2, f"{u} -> equal to the only element")
        if isinstance(n, ast.BoolOp):
            mut(n, setter("op", lambda: ast.And() if isinstance(n.op, ast.Or) else ast.Or()), 0, f"and/or in {u}")
            for k in range(len(n.values)):
                def f(m, k=k):
                    v = [x for j, x in enumerate(m.values) if j != k]
                    return v[0] if len(v) == 1 else ast.BoolOp(m.op, v)
                mut(n, f, 0, f"condition {k} dropped in {u}")
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(n.op), []):
                mut(n, setter("op", new), 0, f"{u} -> {new.__name__}")
        if isinstance(n, ast.BinOp):
            mut(n, lambda m: m.left, 1, f"right operand dropped in {u}")
            mut(n, lambda m: m.right, 1, f"left operand dropped in {u}")
            if isinstance(n.op, (ast.Sub, ast.Div)):
                mut(n, lambda m: ast.BinOp(m.right, m.op, m.left), 1, f"operands exchanged in {u}")
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            mut(n, lambda m: ast.Assign([m.target], m.value), 0, f"assigned instead of accumulated: {u}")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            mut(n, lambda m: m.operand, 0, f"sign/negation dropped in {u}")
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            mut(n, setter("test", ast.UnaryOp(ast.Not(), n.test)), 0, f"negated {u}")
            if not isinstance(n, ast.While):
                exits = isinstance(n, ast.If) and isinstance(n.body[-1], (ast.Return, ast.Continue, ast.Break))
                mut(n, setter("test", ast.Constant(True)), 1, f"always {u}")
                if not exits:
                    mut(n, setter("test", ast.Constant(False)), 1, f"never {u}")
                elif isinstance(n.body[-1], ast.Continue) or isinstance(n.body[-1], ast.Return) and n.body[-1].value is not None and not (
                        isinstance(n.body[-1].value, (ast.Constant, ast.List, ast.Dict, ast.Name))):
                    mut(n, setter("test", ast.Constant(False)), 2, f"never {u}")
        if isinstance(n, ast.Constant) and not isinstance(par.get(id(n), (None,))[0], (ast.Expr, ast.FormattedValue, ast.JoinedStr)):
            v = n.value
            if isinstance(v, bool):
                mut(n, setter("value", not v), 0, f"{v} -> {not v}")
            elif isinstance(v, (int, float)):
                for w in dict.fromkeys((v + 1, v - 1, 0, 1, -1, v * 10, v / 10 if v else 1)):
                    if w != v:
                        mut(n, setter("value", w), 1, f"{v} -> {w}")
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in range(len(n.generators)):
                for k in range(len(n.generators[g].ifs)):
                    def f(m, g=g, k=k):
                        del m.generators[g].ifs[k]
                        return m
                    mut(n, f, 0, f"filter dropped in {u}")
                    def f(m, g=g, k=k):
                        m.generators[g].ifs[k] = ast.UnaryOp(ast.Not(), m.generators[g].ifs[k])
                        return m
                    mut(n, f, 0, f"filter negated in {u}")
        its = []
        if isinstance(n, ast.For):
            its = [(n, "iter", None)]
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            its = [(n, "iter", g) for g in range(len(n.generators))]
        for _, _, g in its:
            for lo, up in ((1, None), (None, -1), (None, 1), (-1, None)):
                def f(m, g=g, lo=lo, up=up):
                    t = m if g is None else m.generators[g]
                    t.iter = ast.Subscript(t.iter, ast.Slice(ast.Constant(lo) if lo else None, ast.Constant(up) if up else None), ast.Load())
                    return m
                mut(n, f, 2, f"only part of the loop {u}")
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
            for o in swap(nm, FUNCS):
                def f(m, o=o):
                    if isinstance(m.func, ast.Attribute):
                        m.func.attr = o
                    else:
                        m.func.id = o
                    return m
                mut(n, f, 0, f"{nm} -> {o}")
            for k in range(len(n.keywords)):
                def f(m, k=k):
                    del m.keywords[k]
                    return m
                mut(n, f, 0, f"argument {n.keywords[k].arg} dropped in {u}")
            for k in range(len(n.args) - 1):
                if nm in ("isinstance", "min", "max", "getattr", "hasattr", "isclose", "allclose", "zip", "super"):
                    continue
                def f(m, k=k):
                    m.args[k], m.args[k + 1] = m.args[k + 1], m.args[k]
                    return m
                mut(n, f, 1, f"arguments exchanged in {u}")
            if len(n.args) > 1 and nm not in ("isinstance", "getattr", "hasattr", "zip", "super"):
                def f(m):
                    del m.args[-1]
                    return m
                mut(n, f, 1, f"last argument dropped in {u}")
            if nm not in BENIGN and not isinstance(par.get(id(n), (None,))[0], ast.Expr):
                if len(n.args) == 1 and not n.keywords:
                    mut(n, lambda m: m.args[0], 1, f"{nm}() dropped")
                if isinstance(n.func, ast.Attribute):
                    mut(n, lambda m: m.func.value, 1, f".{nm}() dropped")
            elif nm in ("deepcopy", "copy") and False:
                pass
            if nm in ("isclose", "allclose"):
                for a in (0, 1):
                    def f(m, a=a):
                        m.args[a] = ast.Call(ast.Name("abs", ast.Load()), [m.args[a]], [])
                        return m
                    mut(n, f, 2, f"absolute value in {u}")
                def f(m):
                    return ast.Compare(m.args[0], [ast.Eq()], [m.args[1]])
                mut(n, f, 2, f"exact comparison in {u}")
                def f(m):
                    m.args[0] = ast.Call(ast.Name("sorted", ast.Load()), [m.args[0]], [])
                    m.args[1] = ast.Call(ast.Name("sorted", ast.Load()), [m.args[1]], [])
                    return m
                if nm == "allclose":
                    mut(n, f, 2, f"sorted in {u}")
            if nm not in BENIGN and n.keywords and n.args and not isinstance(par.get(id(n), (None,))[0], ast.Expr):
                mut(n, lambda m: m.args[0], 1, f"{nm}() dropped")
            if nm in ("min", "max") and len(n.args) > 1:
                for k in range(len(n.args)):
                    mut(n, lambda m, k=k: m.args[k], 0, f"{nm}() replaced by its argument {k}")
            if nm in ("min", "max") and len(n.args) == 1 and not n.keywords:
                mut(n, lambda m: ast.Call(m.func, [ast.Starred(m.args[0], ast.Load()), ast.Constant(0)], []), 2, f"0 added to {u}")
                mut(n, lambda m: ast.Call(m.func, [ast.Call(m.func, [copy.deepcopy(m.args[0])], []), ast.Constant(0)], []), 2, f"0 added to {u}")
            if nm == "len" and len(n.args) == 1:
                mut(n, lambda m: ast.Attribute(m.args[0], "size", ast.Load()), 2, f"size instead of {u}")
            if nm in ("argsort", "argmin", "argmax") and len(n.args) == 1:
                def f(m):
                    m.args[0] = ast.UnaryOp(ast.USub(), m.args[0])
                    return m
                mut(n, f, 2, f"{nm} the other way round")
            if nm in ("list", "set", "sorted", "tuple") and len(n.args) == 1 and isinstance(n.args[0], ast.BinOp):
                for side in ("left", "right"):
                    def f(m, side=side):
                        x = getattr(m.args[0], side)
                        while isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id in ("list", "set", "tuple") and x.args):
                            x = x.args[0]
                        return x.func.value if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "keys" else x
                    mut(n, f, 1, f"only the {side} part of {u}")
            if nm == "join" and len(n.args) == 1 and isinstance(n.args[0], ast.Call) and getattr(n.args[0].func, "id", "") == "sorted":
                def f(m):
                    m.args[0] = m.args[0].args[0]
                    return m
                mut(n, f, 1, "not sorted")
                if isinstance(n.args[0].args[0], (ast.ListComp, ast.GeneratorExp)) and isinstance(n.args[0].args[0].elt, ast.Call):
                    def f(m):
                        c = m.args[0].args[0]
                        c.generators[0].iter = ast.Call(ast.Name("sorted", ast.Load()), [c.generators[0].iter], [])
                        m.args[0] = c
                        return m
                    mut(n, f, 1, "sorted before conversion")
            if nm in ("isdisjoint", "issubset", "issuperset") and isinstance(par.get(id(n), (None,))[0], ast.UnaryOp):
                for o in ("issubset", "issuperset", "isdisjoint"):
                    if o != nm:
                        pn = par[id(n)][0]
                        def f(m, o=o):
                            m.operand.func.attr = o
                            return m.operand
                        mut(pn, f, 1, f"not {nm} -> {o}")
            if nm in ("issubset", "issuperset") and len(n.args) == 1 and isinstance(n.func, ast.Attribute):
                for op in (ast.Eq, ast.NotEq):
                    def f(m, op=op):
                        return ast.Compare(m.func.value, [op()], [ast.Call(ast.Name("set", ast.Load()), [m.args[0]], [])])
                    mut(n, f, 2, f"{nm} -> {op.__name__}")
            if nm in ("update", "extend", "append", "add") and len(n.args) == 1 and isinstance(n.func, ast.Attribute) and isinstance(
                    par.get(id(n), (None,))[0], ast.Expr) and isinstance(n.func.value, (ast.Name, ast.Attribute)):
                conv = {"update": ["set", "dict"], "extend": ["list"], "append": [None], "add": [None]}[nm]
                for cv in conv:
                    def f(m, cv=cv, nm=nm):
                        t = copy.deepcopy(m.func.value)
                        t.ctx = ast.Store()
                        v = ast.Call(ast.Name(cv, ast.Load()), [m.args[0]], []) if cv else (ast.List if nm == "append" else ast.Set)([m.args[0]], *([ast.Load()] if nm == "append" else []))
                        return ast.NamedExpr(t, v) if isinstance(t, ast.Name) else m
                    mut(n, f, 2, f"replaced instead of {nm}")
            if nm == "abs" and len(n.args) == 1:
                mut(n, lambda m: m.args[0], 0, "absolute value dropped")
            if nm in ("sorted", "min", "max") and not any(k.arg == "reverse" for k in n.keywords) and nm == "sorted":
                def f(m):
                    m.keywords.append(ast.keyword("reverse", ast.Constant(True)))
                    return m
                mut(n, f, 2, "sorted the other way")
            if nm == "get" and len(n.args) == 2:
                pass
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and id(n) not in called:
            base = ast.unparse(n.value)
            for o in dict.fromkeys(swap(n.attr, ATTRS) + sorted(attrs_of.get(base, set()) - {n.attr})):
                mut(n, setter("attr", o), 0 if o in swap(n.attr, ATTRS) else 2, f"{u} -> {o}")
            mut(n, lambda m: m.value, 1, f".{n.attr} dropped in {u}")
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            pass
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in stores and id(n) not in called:
            for o in sorted(stores - {n.id, "self", "cls"}) if n.id not in ("self", "cls") else []:
                kin = o in n.id or n.id in o or set(o.split("_")) & set(n.id.split("_"))
                mut(n, setter("id", o), 2 if kin else 3, f"{n.id} -> {o}")
            for a in sorted({x for v in attrs_of.values() for x in v} | {"composition", "entry_id", "energy", "energy_per_atom"})[:30]:
                p = par.get(id(n), (None,))[0]
                if not isinstance(p, ast.Attribute):
                    mut(n, lambda m, a=a: ast.Attribute(ast.Name(m.id, ast.Load()), a, ast.Load()), 4, f"{n.id} -> {n.id}.{a}")
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in stores and id(n) not in called:
            for o in swap(n.id, FUNCS):
                mut(n, setter("id", o), 1, f"{n.id} -> {o}")
        if isinstance(n, ast.Dict):
            for k in range(len(n.keys)):
                def f(m, k=k):
                    del m.keys[k], m.values[k]
                    return m
                mut(n, f, 0, f"key dropped in {u}")
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
            for k in range(len(n.elts)):
                def f(m, k=k):
                    del m.elts[k]
                    return m
                mut(n, f, 1, f"item dropped in {u}")
                if k + 1 < len(n.elts) and not isinstance(n, ast.Set):
                    def f(m, k=k):
                        m.elts[k], m.elts[k + 1] = m.elts[k + 1], m.elts[k]
                        return m
                    mut(n, f, 0, f"items exchanged in {u}")
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            if isinstance(n.slice, ast.Slice):
                mut(n, lambda m: m.value, 0, f"slice dropped in {u}")
            elif isinstance(n.slice, ast.Constant) and n.slice.value == 0:
                mut(n, setter("slice", ast.UnaryOp(ast.USub(), ast.Constant(1))), 0, f"last instead of first in {u}")
        if isinstance(n, ast.ListComp) and len(n.generators) == 1:
            mut(n, lambda m: ast.List([ast.Call(ast.Name("next", ast.Load()), [ast.GeneratorExp(m.elt, m.generators)], [])], ast.Load()), 2, f"only the first of {u}")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "almost_equals" and n.args:
            for at in ("reduced_formula", "formula", "chemical_system", "reduced_composition"):
                def f(m, at=at):
                    return ast.Compare(ast.Attribute(m.func.value, at, ast.Load()), [ast.Eq()], [ast.Attribute(m.args[0], at, ast.Load())])
                mut(n, f, 2, f"only {at} compared in {u}")
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            def f(m):
                t = m.targets[0]
                return ast.Expr(ast.Call(ast.Attribute(t.value, "setdefault", ast.Load()), [t.slice, m.value], []))
            mut(n, f, 2, f"first value kept: {u}")
            v = n.value
            if isinstance(v, ast.Call) and getattr(v.func, "id", "") in ("min", "max") and len(v.args) == 2:
                for k in (0, 1):
                    def f(m, k=k):
                        t = m.targets[0]
                        return ast.Expr(ast.Call(ast.Attribute(t.value, "setdefault", ast.Load()), [t.slice, m.value.args[k]], []))
                    mut(n, f, 1, f"first value kept: {u}")
        if isinstance(n, ast.For) and len(n.body) > 1 and id(n) in par and isinstance(getattr(par[id(n)][0], par[id(n)][1]), list) and isinstance(n.body[0], (ast.Assign, ast.AnnAssign)):
            pn, pf = par[id(n)]
            k = getattr(pn, pf).index(n)
            def f(m, pf=pf, k=k):
                b = getattr(m, pf)
                b.insert(k, b[k].body.pop(0))
                return m
            mut(pn, f, 2, f"moved before the loop: {ast.unparse(n.body[0])[:40]}")
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and "_" in n.attr and id(n) not in called:
            h, _, t = n.attr.partition("_")
            if h and t:
                mut(n, lambda m, h=h, t=t: ast.Attribute(ast.Attribute(m.value, h, ast.Load()), t, ast.Load()), 3, f"{u} -> {h}.{t}")
        if isinstance(n, ast.IfExp):
            mut(n, lambda m: m.body, 1, f"always the first case of {u}")
            mut(n, lambda m: m.orelse, 1, f"always the second case of {u}")
        if isinstance(n, ast.Lambda):
            pass
        for fld in ("body", "orelse", "finalbody"):
            body = getattr(n, fld, None)
            if not (isinstance(body, list) and body and isinstance(body[0], ast.stmt)):
                continue
            for k, s in enumerate(body):
                if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.Return)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Break)):
                    continue  # an early exit may be a shortcut
                def f(m, k=k, fld=fld):
                    getattr(m, fld)[k] = ast.Pass()
                    return m
                mut(n, f, 0 if not isinstance(s, (ast.Assign, ast.AnnAssign)) else 2, f"dropped {ast.unparse(s)[:50]}")
                if isinstance(s, (ast.Continue, ast.Break)):
                    def f(m, k=k, fld=fld):
                        getattr(m, fld)[k] = ast.Break() if isinstance(getattr(m, fld)[k], ast.Continue) else ast.Continue()
                        return m
                    mut(n, f, 0, "break/continue exchanged")
                if isinstance(s, ast.If) and k + 1 == len(body) and not s.orelse and fld == "body":
                    def f(m, k=k, fld=fld):  # the last statement of a branch happens in any case
                        b = getattr(m, fld)
                        b.append(b[k].body.pop())
                        if not b[k].body:
                            b[k].body = [ast.Pass()]
                        return m
                    mut(n, f, 2, f"unconditional {ast.unparse(s.body[-1])[:40]}")
                if isinstance(s, (ast.For, ast.If)) and len(s.body) > 1 or isinstance(s, ast.For):
                    def f(m, k=k, fld=fld):
                        b = getattr(m, fld)
                        b.insert(k + 1, b[k].body.pop())
                        if not b[k].body:
                            b[k].body = [ast.Pass()]
                        return m
                    mut(n, f, 2, f"moved out: {ast.unparse(s.body[-1])[:40]}")
                if isinstance(s, ast.If) and s.orelse:
                    def f(m, k=k, fld=fld):
                        b = getattr(m, fld)
                        b[k].body, b[k].orelse = b[k].orelse, b[k].body
                        return m
                    mut(n, f, 1, "branches exchanged")
            if isinstance(n, (ast.For, ast.While)) and fld == "body":
                mut(n, lambda m: (m.body.append(ast.Break()), m)[1], 1, "loop left after the first element")
            if isinstance(n, ast.If) and fld == "body" and not isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                inloop = False
                p = n
                while id(p) in par:
                    p = par[id(p)][0]
                    inloop |= isinstance(p, (ast.For, ast.While))
                if inloop:
                    mut(n, lambda m: (m.body.append(ast.Break()), m)[1], 1, "loop left at the first match")
    out.sort()
    return [(t, w) for _, _, t, w in out]
