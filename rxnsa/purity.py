"""Ownership analysis: which functions change an object they were given.

An abstract value says which objects of the caller a local value may reach: a set of (root, fresh, depth). The root is a
parameter, a module constant or the result of a memoised function; `fresh` outer layers of the value were made in this
function; below them lies what the root holds `depth` steps further down. Taking an attribute or an item steps down, a shallow
copy makes one layer fresh, a display or comprehension wraps one layer around, a deep copy (or any call nothing is known of)
reaches nothing. Changing a value with no fresh layer left changes the caller's object. Calls inside the package are
followed through summaries: what the callee changes, and what of its parameters it returns.
"""

from __future__ import annotations

import ast

from .lint import resolve_local
from .model import Cls, Func, Module

MUT = {
    "append", "extend", "insert", "remove", "pop", "clear", "sort", "update", "setdefault", "popitem", "add", "discard",
    "difference_update", "intersection_update", "symmetric_difference_update", "appendleft", "popleft", "fill", "itemset",
    "add_node", "add_edge", "add_nodes_from", "add_edges_from", "remove_node", "remove_edge", "remove_node_from_index",
    "remove_edge_from_index", "remove_nodes_from", "remove_edges_from", "__setitem__", "__delitem__", "__setattr__",
}
STATEMENT_MUT = {"reverse"}
MUT_FIRST = {"shuffle", "heapify", "heappush", "heappop", "heapreplace", "fill_diagonal", "copyto", "putmask", "place", "insort", "insort_left", "insort_right"}
COPY = {"list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "dict", "OrderedDict", "defaultdict", "copy", "array", "filter", "tqdm",
        "fromkeys", "deque", "Counter"}
SAME = {"asarray", "cast", "Composition"}
TUPLES = {"enumerate", "zip", "product", "combinations", "permutations", "combinations_with_replacement", "zip_longest", "grouper"}
PICK = {"max", "min", "next", "getattr", "choice"}
VIEW = {"loc", "iloc", "at", "iat", "T", "values", "flat", "real", "__dict__"}
MAXD = 6


def deref(v):
    return frozenset((r, max(f - 1, 0), min(d + 1, MAXD)) for r, f, d in v)


def wrap(v):
    return frozenset((r, f + 1, d - 1) for r, f, d in v if f < 4)


def shell(v):
    return frozenset((r, max(f, 1), d) for r, f, d in v)


NONE = frozenset()
BOOK = {"idx", "e_above_hull"}
INDEXERS = {"build_indices"}


def dict_keys(fn, e):
    out = []
    for v in resolve_local(fn, e):
        if isinstance(v, ast.Dict):
            out += [k.value if isinstance(k, ast.Constant) else None for k in v.keys]
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dict" and not v.args:
            out += [k.arg for k in v.keywords]
        else:
            out.append(None)
    return out


def bookkeeping(n, fn):
    """an entry set annotates its entries with their index and hull distance"""
    if isinstance(n, ast.Subscript):
        return all(isinstance(v, ast.Constant) and v.value in BOOK for v in resolve_local(fn, n.slice))
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update":
        keys = [k.arg for k in n.keywords]
        for a in n.args:
            keys += dict_keys(fn, a)
        return bool(keys) and set(keys) <= BOOK
    return False


class Summary:
    def __init__(self):
        self.mut = {}  # (root, depth) -> (line, text)
        self.ret = NONE


def growable(a):
    """an annotation whose values += changes in place"""
    t = ast.unparse(a).strip("'\"").removeprefix("np.").removeprefix("numpy.").removeprefix("typing.")
    return t.lower().startswith(("list", "ndarray", "dict", "set[", "defaultdict", "deque", "dataframe", "pd.dataframe"))


class Purity:
    def __init__(self, prog):
        self.p = prog
        self.memo: dict = {}
        self.members: dict = {}
        self.fields: set = set()
        self.arrays: set = set()
        self.arraydicts: set = set()  # attributes that hold a dictionary of arrays
        for m in prog.modules.values():
            for c in m.classes.values():
                for n, f in c.members.items():
                    self.members.setdefault(n, []).append((f, c))
                self.fields |= set(c.anns)
                self.arrays |= {n for n, a in c.anns.items() if growable(a)}
                for f in c.members.values():
                    held = {x.arg for x in f.node.args.args if x.annotation is not None and ast.unparse(x.annotation).startswith("dict[") and "ndarray" in ast.unparse(x.annotation)}
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in held:
                            self.arraydicts.add(n.targets[0].attr)
                        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Call):
                            if ast.unparse(n.value.func) in ("np.array", "numpy.array", "np.asarray", "numpy.asarray"):
                                self.arrays.add(n.targets[0].attr)
                    if f.is_prop and f.node.returns is not None and "ndarray" in ast.unparse(f.node.returns):
                        self.arrays.add(f.name)
        self.calls = 0

    def summary(self, f: Func, c: Cls | None):
        k = (f, c)
        if k in self.memo:
            return self.memo[k]
        s = self.memo[k] = Summary()
        for _ in range(2):
            w = Walk(self, f, c)
            w.run()
            s.mut, s.ret = w.mut, frozenset(w.ret)
            if f.name in INDEXERS:
                s.mut = {k: v for k, v in s.mut.items() if k[1] < 2}
        return s


class Walk:
    def __init__(self, pu, f, c):
        self.pu, self.p, self.f, self.c, self.mod = pu, pu.p, f, c, f.mod
        self.mut, self.ret = {}, set()
        a = f.node.args
        self.env = {}
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.env[x.arg] = frozenset([(x.arg, 0, 0)])
        if a.kwarg:
            self.env[a.kwarg.arg] = frozenset([(a.kwarg.arg, 1, 0)])
        if a.vararg:
            self.env[a.vararg.arg] = frozenset([(a.vararg.arg, 1, 0)])
        ps = a.posonlyargs + a.args
        self.selfname = ps[0].arg if (c is not None and ps and not f.is_static) else None
        if self.selfname and f.is_class:
            self.env[self.selfname] = NONE
        self.closures = {}
        self.arr: set = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None and growable(x.annotation)}
        self.depth = 0

    def run(self):
        self.block(self.f.node.body)

    # ------------------------------------------------------------- recording
    def change(self, v, node):
        if bookkeeping(node, self.f.node):
            return
        for r, f, d in v:
            if f == 0:
                self.mut.setdefault((r, d), (node.lineno, ast.unparse(node)[:100], self.f))

    def apply_mut(self, v, k, node, via):
        for r, f, d in v:
            if k >= f:
                self.mut.setdefault((r, min(d + k, MAXD)), (node.lineno, f"{ast.unparse(node)[:80]} (in {via})", self.f))

    # ------------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def join(self, envs):
        out = {}
        for e in envs:
            for k, v in e.items():
                out[k] = out.get(k, NONE) | v
        self.env = out

    def branch(self, *blocks):
        e0 = dict(self.env)
        outs = []
        for b in blocks:
            self.env = dict(e0)
            self.block(b)
            if not (b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))):
                outs.append(self.env)
            elif b and isinstance(b[-1], (ast.Continue, ast.Break)):
                outs.append(self.env)
        self.join(outs or [e0])

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(
                s.targets[0].elts
            ) == len(s.value.elts) and not any(isinstance(e, ast.Starred) for e in s.value.elts + s.targets[0].elts):
                vs = [self.ev(e) for e in s.value.elts]
                for t, v, e in zip(s.targets[0].elts, vs, s.value.elts):
                    self.bind(t, v, e)
                return
            if isinstance(s.value, ast.Dict) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and all(
                isinstance(k, ast.Constant) and isinstance(k.value, str) for k in s.value.keys
            ):
                vs = [(k.value, self.ev(x)) for k, x in zip(s.value.keys, s.value.values)]
                self.bind(s.targets[0], NONE)
                for k, x in vs:
                    self.env[f"{s.targets[0].id}.{k}"] = x
                return
            v = self.ev(s.value)
            for t in s.targets:
                self.bind(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            t = s.target
            if isinstance(t, ast.Name):
                if isinstance(s.value, (ast.List, ast.Set, ast.Dict, ast.ListComp, ast.SetComp, ast.DictComp)) or (
                    isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in COPY
                ) or t.id in self.arr or isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.BitXor)):
                    self.change(self.env.get(t.id, NONE), s)
                    # the name now also holds the elements of the right-hand side
                    self.env[t.id] = self.env.get(t.id, NONE) | shell(v)
            else:
                self.change(self.ev(t.value), s)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    self.change(self.ev(t.value), s)
                elif isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter)
            e0 = dict(self.env)
            for _ in range(2):
                self.bind(s.target, deref(it))
                self.block(s.body)
                self.join([e0, self.env])
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            e0 = dict(self.env)
            for _ in range(2):
                self.ev(s.test)
                self.block(s.body)
                self.join([e0, self.env])
            self.block(s.orelse)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            self.branch(s.body, s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, NONE)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            e0 = dict(self.env)
            self.block(s.body)
            e1 = dict(self.env)
            outs = [e1]
            for h in s.handlers:
                self.join([e0, e1])
                if h.name:
                    self.env[h.name] = NONE
                self.block(h.body)
                outs.append(self.env)
            self.join(outs)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.returned(self.ev(s.value))
        elif isinstance(s, ast.Expr):
            self.ev(s.value, stmt=True)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.closures[s.name] = s
            self.env.pop(s.name, None)
            self.closure(s, [], {})
        elif isinstance(s, ast.Match):
            self.ev(s.subject)
            self.branch(*[c.body for c in s.cases], [])
        elif isinstance(s, (ast.Raise, ast.Assert)):
            for e in ast.iter_child_nodes(s):
                self.ev(e)

    def returned(self, v):
        self.ret |= v

    def memo_attr(self, t):
        """self._x = ..., where nothing but this assignment (a memo) knows of _x"""
        if not (isinstance(t.value, ast.Name) and t.value.id == self.selfname and t.attr.startswith("_") and self.c is not None):
            return False
        for k in self.p.mro(self.c):
            if not isinstance(k, Cls):
                continue
            if t.attr in k.anns or t.attr in k.attrs or t.attr in k.members:
                return False
            for n, i in k.members.items():
                if i is not self.f and any(isinstance(x, ast.Attribute) and x.attr == t.attr and (n == "__init__" or isinstance(x.ctx, ast.Store))
                                           for x in ast.walk(i.node)):
                    return False
        return True

    def restored(self, t):
        """an attribute that a finally clause of this function sets again"""
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Try):
                for s in n.finalbody:
                    if isinstance(s, ast.Assign) and any(ast.dump(x) == ast.dump(t) for x in s.targets):
                        return True
        return False

    def memo_item(self, t):
        """self._x[key] = ..., where _x starts as an empty dictionary: a memo"""
        if self.c is None:
            return False
        vs = resolve_local(self.f.node, t.value)
        return bool(vs) and all(isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == self.selfname
                                and v.attr.startswith("_") and self.empty_dict(v.attr) for v in vs)

    def empty_dict(self, attr):
        """every plain assignment of the attribute in the class makes it empty"""
        found = False
        for k in self.p.mro(self.c):
            for f in k.members.values() if isinstance(k, Cls) else ():
                for n in ast.walk(f.node):
                    tg = n.targets[0] if isinstance(n, ast.Assign) else n.target if isinstance(n, ast.AnnAssign) else None
                    if isinstance(tg, ast.Attribute) and tg.attr == attr and n.value is not None:
                        if not (isinstance(n.value, ast.Dict) and not n.value.keys or isinstance(n.value, ast.Call) and not n.value.args and not n.value.keywords):
                            return False
                        found = True
        return found

    def is_array(self, e):
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute):
            return e.value.attr in self.pu.arraydicts
        return isinstance(e, ast.Attribute) and e.attr in self.pu.arrays or isinstance(e, ast.Name) and e.id in self.arr

    def bind(self, t, v, src=None):
        if isinstance(t, ast.Name):
            for k in [k for k in self.env if k.startswith(t.id + ".")]:
                del self.env[k]
            self.env[t.id] = v
            self.closures.pop(t.id, None)
            (self.arr.add if self.is_array(src) else self.arr.discard)(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                if isinstance(e, ast.Starred):
                    self.bind(e.value, shell(v))
                else:
                    self.bind(e, deref(v))
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            emptied = t.attr in ("parameters", "data") and isinstance(src, ast.Dict) and not src.keys
            if not self.memo_attr(t) and not self.restored(t) and not emptied:
                self.change(base, t)
            self.attach(t.value, v, t.attr)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            base = self.ev(t.value)
            if not self.memo_item(t):
                self.change(base, t)
            self.attach(t.value, v, t.slice.value if isinstance(t.slice, ast.Constant) else None)

    def attach(self, holder, v, key=None):
        """a value was put into a local object: reading it back must still reach what it reached"""
        if isinstance(holder, ast.Name) and v:
            cur = self.env.get(holder.id, NONE)
            if isinstance(key, str):
                self.env[f"{holder.id}.{key}"] = v
            elif not any(f == 0 for _, f, _ in cur):
                self.env[holder.id] = cur | wrap(v)

    # ------------------------------------------------------------- expressions
    def ev(self, e, stmt=False):
        if e is None:
            return NONE
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is None:
            for k in ast.iter_child_nodes(e):
                if isinstance(k, ast.expr):
                    self.ev(k)
            return NONE
        return m(e, stmt) if m == self.x_Call else m(e)

    def x_Name(self, e):
        if e.id in self.env:
            out = self.env[e.id]
            for k, v in self.env.items():
                if k.startswith(e.id + ".") and v:
                    out |= wrap(v)
            return out
        if e.id in self.closures:
            return NONE
        r = self.p.resolve(self.mod, e.id)
        if isinstance(r, tuple) and r and r[0] == "const":
            return frozenset([(f"the module constant {r[2]}", 0, 0)])
        if isinstance(r, str) and e.id in self.mod.imports and e.id[:1].islower() and "." in self.mod.imports[e.id] and "_" in e.id:
            return frozenset([(f"the imported {e.id}", 0, 0)])
        return NONE

    def raw(self, e):
        return self.env[e.id] if isinstance(e, ast.Name) and e.id in self.env else self.ev(e)

    def slot(self, e, key):
        return self.env.get(f"{e.value.id}.{key}", NONE) if isinstance(e.value, ast.Name) and isinstance(key, str) else NONE

    def x_Attribute(self, e):
        v = self.raw(e.value)
        s = self.slot(e, e.attr)
        if s:
            return s
        if not v:
            return NONE
        if e.attr in VIEW:
            return v
        if isinstance(e.value, ast.Name) and e.value.id == self.selfname and self.c is not None:
            f = self.p.find(self.c, e.attr)
            if f is not None:
                return self.prop(f, self.c, v, e)
            return deref(v)
        cands = self.pu.members.get(e.attr, ())
        if cands and e.attr not in self.pu.fields:
            outs = [self.prop(f, c, v, e) for f, c in cands]
            if any(not o for o in outs):
                return NONE
            return outs[0]
        return deref(v)

    def prop(self, f, c, v, e):
        if not f.is_prop or f.is_abstract:
            return NONE
        if f.is_cached:
            return deref(v)
        return self.call(f, c, [v], {}, e, quiet=True)

    def x_Subscript(self, e):
        self.ev(e.slice)
        v = self.raw(e.value) if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str) else self.ev(e.value)
        if isinstance(e.slice, ast.Slice) or (isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts)):
            return shell(v)
        return deref(v) | self.slot(e, e.slice.value if isinstance(e.slice, ast.Constant) else None)

    def x_IfExp(self, e):
        self.ev(e.test)
        return self.ev(e.body) | self.ev(e.orelse)

    def x_BoolOp(self, e):
        out = NONE
        for x in e.values:
            out |= self.ev(x)
        return out

    def x_NamedExpr(self, e):
        v = self.ev(e.value)
        self.bind(e.target, v)
        return v

    def x_Starred(self, e):
        return self.ev(e.value)

    def x_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        if isinstance(e.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub)):
            return shell(a) | shell(b)
        return NONE

    def seq(self, elts):
        out = NONE
        for x in elts:
            if isinstance(x, ast.Starred):
                out |= shell(self.ev(x.value))
            elif x is not None:
                out |= wrap(self.ev(x))
        return out

    def x_List(self, e):
        return self.seq(e.elts)

    x_Tuple = x_Set = x_List

    def x_Dict(self, e):
        out = NONE
        for k, v in zip(e.keys, e.values):
            if k is None:
                out |= shell(self.ev(v))
            else:
                self.ev(k)
                out |= wrap(self.ev(v))
        return out

    def comp(self, e, elts):
        e0 = dict(self.env)
        for g in e.generators:
            self.bind(g.target, deref(self.ev(g.iter)))
            for c in g.ifs:
                self.ev(c)
        out = NONE
        for x in elts:
            out |= wrap(self.ev(x))
        self.env = e0
        return out

    def x_ListComp(self, e):
        return self.comp(e, [e.elt])

    x_SetComp = x_GeneratorExp = x_ListComp

    def x_DictComp(self, e):
        self.comp(e, [e.key])
        return self.comp(e, [e.value])

    def x_Lambda(self, e):
        e0 = dict(self.env)
        for a in e.args.args:
            self.env[a.arg] = NONE
        self.ev(e.body)
        self.env = e0
        return NONE

    def x_Await(self, e):
        return self.ev(e.value)

    def x_Yield(self, e):
        self.returned(wrap(self.ev(e.value)))
        return NONE

    def x_YieldFrom(self, e):
        self.returned(shell(self.ev(e.value)))
        return NONE

    # ------------------------------------------------------------- calls
    def x_Call(self, e, stmt=False):
        fn = e.func
        pos = [self.ev(a) for a in e.args]
        kw = {k.arg: self.ev(k.value) for k in e.keywords}
        star = any(isinstance(a, ast.Starred) for a in e.args)
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
        first = pos[0] if pos else NONE
        if isinstance(fn, ast.Name):
            if name in self.closures:
                return self.closure(self.closures[name], pos, kw)
            if name not in self.env:
                r = self.p.resolve(self.mod, name)
                if isinstance(r, Func):
                    return self.call(r, None, pos, kw, e, star)
                if isinstance(r, Cls):
                    return self.construct(r, pos, kw, e, star)
            if name in ("setattr", "delattr"):
                self.change(first, e)
                return NONE
            if name == "vars":
                return first
            return self.known(name, pos, kw, e)
        if not isinstance(fn, ast.Attribute):
            self.ev(fn)
            return NONE
        if name in ("remote", "submit"):
            self.ev(fn.value)
            return NONE
        # super().m(...)
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and self.c is not None:
            me = self.env.get(self.selfname, NONE)
            f = self.p.find(self.c, name, after=self.f.cls or self.c)
            if f is not None:
                return self.call(f, self.c, [me] + pos, kw, e, star)
            if name in MUT:
                self.change(me, e)
            if name in ("__setitem__", "__setattr__"):
                self.change(me, e)
            return NONE
        dotted = ast.unparse(fn) if all(isinstance(x, (ast.Attribute, ast.Name, ast.Load)) for x in ast.walk(fn)) else ""
        head = dotted.split(".")[0]
        if dotted and head not in self.env and head not in self.closures:
            r = self.p.resolve(self.mod, dotted)
            if isinstance(r, Func):
                return self.call(r, r.cls, ([NONE] if r.is_class else []) + pos, kw, e, star)
            if isinstance(r, Cls):
                return self.construct(r, pos, kw, e, star)
            if isinstance(self.p.resolve(self.mod, head), (str, Module)) and not (isinstance(r, str) and self.ev(fn.value)):
                return self.known(name, pos, kw, e)
        recv = self.ev(fn.value)
        if isinstance(fn.value, ast.Name) and fn.value.id == self.selfname and self.c is not None:
            f = self.p.find(self.c, name)
            if f is not None:
                return self.call(f, self.c, pos if f.is_static else [NONE if f.is_class else recv] + pos, kw, e, star)
            if name == "as_dict":
                return NONE
        if any(k.arg == "inplace" and isinstance(k.value, ast.Constant) and k.value.value is True for k in e.keywords):
            self.change(recv, e)
            return NONE
        if name in STATEMENT_MUT and stmt and not e.args:
            self.change(recv, e)
        cands = [(f, c) for f, c in self.pu.members.get(name, ()) if not f.is_static and not f.is_class and not f.is_prop and not f.is_abstract]
        if name in MUT:
            self.change(recv, e)
            if name in ("append", "add", "insert", "appendleft", "setdefault"):
                self.attach(fn.value, pos[-1] if pos else NONE)
            elif name in ("extend", "update"):
                self.attach(fn.value, deref(first))
            return deref(recv) if name in ("pop", "setdefault", "popleft") else NONE
        if name in ("copy", "__copy__"):
            return shell(recv)
        if name in ("get", "__getitem__"):
            return deref(recv)
        if name == "items":
            return wrap(shell(recv))
        if name in ("values", "keys"):
            return shell(recv)
        if cands:
            outs = []
            for f, c in cands:
                s = self.pu.summary(f, c)
                outs.append(s)
            self.pu.calls += 1
            # what every method of that name does
            ps = [f.params for f, _ in cands]
            for i, v in enumerate([recv] + pos):
                if all(i < len(p) for p in ps):
                    ks = [{d for (r, d) in s.mut if r == p[i]} for s, p in zip(outs, ps)]
                    for k in set.intersection(*ks):
                        self.apply_mut(v, k, e, f"{cands[0][0].cls.name}.{name}")
            if any(not s.ret for s in outs):
                return NONE
            f, c = cands[0]
            return self.call(f, c, [recv] + pos, kw, e, star, quiet=True)
        return NONE

    def known(self, name, pos, kw, node):
        first = pos[0] if pos else NONE
        if name in MUT_FIRST:
            self.change(first, node)
        if "out" in kw:
            self.change(kw["out"], node)
        if name == "deepcopy":
            return NONE
        if name in COPY:
            v = pos[-1] if name in ("filter", "defaultdict") and pos else first
            out = shell(v)
            for x in kw.values():
                out |= wrap(x) if name == "dict" else NONE
            return out
        if name in SAME:
            return pos[-1] if name == "cast" and pos else first
        if name in TUPLES:
            out = NONE
            for v in pos:
                out |= wrap(shell(v))
            return out
        if name == "chain":
            out = NONE
            for v in pos:
                out |= shell(v)
            return out
        if name == "from_iterable":
            return shell(deref(first))
        if name in PICK:
            out = deref(first)
            if name in ("max", "min"):
                for v in pos[1:]:
                    out |= v
                if len(pos) > 1:
                    out |= first
            return out
        return NONE

    def closure(self, node, pos, kw):
        if self.depth > 3:
            return NONE
        self.depth += 1
        e0, ret0, cl0 = dict(self.env), self.ret, dict(self.closures)
        self.ret = set()
        names = [a.arg for a in node.args.posonlyargs + node.args.args]
        for n in names + [a.arg for a in node.args.kwonlyargs]:
            self.env[n] = kw.get(n, NONE)
        for n, v in zip(names, pos):
            self.env[n] = v
        self.block(node.body)
        out = frozenset(self.ret)
        self.env, self.ret, self.closures = e0, ret0, cl0
        self.depth -= 1
        return out

    def construct(self, c, pos, kw, e, star):
        f = self.p.find(c, "__init__")
        if f is not None and not star:
            self.call(f, c, [NONE] + pos, kw, e, star)
        return NONE

    def call(self, f, c, pos, kw, e, star=False, quiet=False):
        self.pu.calls += 1
        s = self.pu.summary(f, c if c is not None else f.cls)
        names = f.params
        args = {}
        if not star:
            args.update(zip(names, pos))
        elif pos and names:
            args[names[0]] = pos[0] if not isinstance(e.args[0] if e.args else None, ast.Starred) or f.cls is not None else NONE
        for k, v in kw.items():
            if k is not None:
                args[k] = v
        for (r, d), (line, text, g) in s.mut.items():
            if r in args:
                if not quiet:
                    self.apply_mut(args[r], d, e, f.qual.replace("rxn_network.", ""))
            elif r.startswith("the "):
                self.mut.setdefault((r, d), (line, text, g))
        if f.name in ("as_dict", "to_dict"):
            return NONE
        if f.is_cached and not f.is_prop:
            return frozenset([(f"the memoised result of {f.name}", 0, 0)])
        out = set()
        for r, fr, d in s.ret:
            if r in args:
                for ra, fa, da in args[r]:
                    out.add((ra, max(fr, fa - d), min(da + d, MAXD)))
            elif r.startswith("the "):
                out.add((r, fr, d))
        if len(out) > 24:
            out = set(sorted(out)[:24])
        return frozenset(out)
