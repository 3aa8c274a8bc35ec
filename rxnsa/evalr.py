"""Gated value numbering: one forward pass per function over the syntax tree with gamma (ite)
merges at joins, loop products for loops, and a store for freshly allocated objects.

Nothing in /repo is executed; no path is enumerated (joins merge), no solver is consulted.
"""

from __future__ import annotations

import ast
from dataclasses import dataclass, field

from . import terms as X
from .model import Cls, Func, Module
from .terms import FALSE, NONE, TRUE, UNDEF, T, b_and, b_not, b_or, const, ite, mk

MUTATORS = {
    "append", "add", "extend", "update", "remove", "discard", "pop", "popitem", "clear", "sort", "insert",
    "setdefault", "reverse", "difference_update", "intersection_update", "symmetric_difference_update", "fill",
    "appendleft", "popleft",
}
# builtin/ext functions returning their (single) iterable argument's value
IDENT = {
    "list", "tuple", "iter", "numpy.array", "numpy.asarray", "copy.copy", "copy.deepcopy", "tqdm.tqdm", "float",
    "ray.put", "ray.get", "numpy.copy", "tqdm", "tqdm.auto.tqdm", "rxn_network.core.Composition", "pymatgen.core.composition.Composition",
    "pymatgen.core.Composition", "numpy.squeeze",
}
FRESH_IDENT = {"list", "numpy.array", "copy.copy", "copy.deepcopy", "numpy.copy"}
ALIASES = {
    "numpy.abs": "abs", "numpy.absolute": "abs", "numpy.fabs": "abs", "math.fabs": "abs",
    "numpy.sum": "sum", "math.fsum": "sum", "builtins.sum": "sum",
    "numpy.exp": "math.exp", "numpy.log": "math.log", "numpy.sqrt": "math.sqrt", "numpy.log1p": "math.log1p",
    "numpy.max": "max", "numpy.min": "min", "numpy.amax": "max", "numpy.amin": "min",
    "numpy.any": "any", "numpy.all": "all",
    "numpy.math.exp": "math.exp", "numpy.isnan": "math.isnan", "numpy.isfinite": "math.isfinite",
    "numpy.concatenate": "numpy.concatenate",
}
BUILTINS = {
    "len", "sum", "abs", "min", "max", "any", "all", "sorted", "set", "frozenset", "dict", "list", "tuple", "range",
    "enumerate", "zip", "map", "filter", "isinstance", "hasattr", "getattr", "setattr", "str", "repr", "int", "float",
    "bool", "next", "iter", "reversed", "round", "hash", "type", "print", "super", "id", "callable", "vars", "divmod",
    "issubclass", "ValueError", "KeyError", "AttributeError", "TypeError", "NotImplementedError", "Exception",
    "RuntimeError", "StopIteration", "ZeroDivisionError", "IndexError", "AssertionError", "object", "slice", "pow", "FileNotFoundError",
    "NotImplemented", "property", "staticmethod", "open", "ImportError", "DeprecationWarning", "UserWarning", "Warning", "bytes", "complex",
}


@dataclass
class Event:
    kind: str
    data: tuple
    guard: T
    loops: tuple
    fn: str
    line: int
    file: str = ""

    def __repr__(self):
        lp = "".join(f" for {X.show(d, 3)}" for d in self.loops)
        g = "" if self.guard is TRUE else f" if {X.show(self.guard, 5)}"
        return f"{self.kind}{X.show(self.data, 5)}{g}{lp} @{self.fn}:{self.line}"


class State:
    __slots__ = ("env", "heap", "store", "ov", "pc")

    def __init__(self, env=None, heap=None, store=None, ov=None, pc=TRUE):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.store = store if store is not None else {}
        self.ov = ov if ov is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.store), dict(self.ov), self.pc)


def merge(c, a: State, b: State, care=TRUE) -> State:
    """c ? a : b (either may be None)."""
    if a is None:
        return b
    if b is None:
        return a
    r = State(pc=b_or(a.pc, b.pc))

    def mm(m1, m2, default):
        out = {}
        for k in list(m1) + [k for k in m2 if k not in m1]:
            v1, v2 = m1.get(k), m2.get(k)
            if v1 is v2:
                out[k] = v1
                continue
            if v1 is None:
                v1 = default(k)
            if v2 is None:
                v2 = default(k)
            if v1 is None or v2 is None:
                out[k] = v1 or v2
                continue
            out[k] = X.constrain(ite(c, v1, v2), care) if _bounded(c, v1, v2) else mk("phi", c.dg, v1, v2)
        return out

    r.env = mm(a.env, b.env, lambda k: UNDEF)
    r.heap = mm(a.heap, b.heap, lambda k: None)
    r.store = mm(a.store, b.store, lambda k: attr_raw(k[0], k[1]))
    r.ov = mm(a.ov, b.ov, lambda k: k)
    return r


def _bounded(c, v1, v2):
    return X.n_leaves(c) <= 4096 and X.n_leaves(v1) <= 2000 and X.n_leaves(v2) <= 2000


def attr_raw(o, a):
    return mk("attr", o, a)


@dataclass
class Out:
    """Outcomes of a block."""

    fall: State | None
    rets: list = field(default_factory=list)  # (pc, value, state)
    conts: list = field(default_factory=list)  # (pc, state)
    brks: list = field(default_factory=list)
    raises: list = field(default_factory=list)  # (pc, exc term)


class Result:
    def __init__(self, func, cls):
        self.func, self.cls = func, cls
        self.ret: T = NONE
        self.events: list[Event] = []
        self.store: dict = {}
        self.raises: list = []
        self.unknowns: list = []
        self.ret_pc = TRUE
        self.lvclose: dict = {}

    def close(self, t):
        """express the loop variables a term mentions by the computation of their current value"""
        for _ in range(6):
            ls = [x for x in X.marks(t) if x.op == "lv" and x in self.lvclose]
            if not ls:
                break
            t = X.subst(t, {x: self.closed(x) for x in ls})
        return t

    def closed(self, l):
        v = self.lvclose[l]
        if callable(v):
            v = self.lvclose[l] = v()
        return v

    def calls(self, name=None):
        out = []
        for e in self.events:
            if e.kind == "call":
                if name is None or call_name(e.data[0]) == name:
                    out.append(e)
        return out


def call_name(t):
    """simple name of callee of a call/new term"""
    if t.op == "new":
        return t.args[0]
    if t.op == "call":
        f = t.args[0]
        if f.op == "meth":
            return f.args[1]
        if f.op == "glob":
            return f.args[0].split(".")[-1]
    return None


class Frame:
    def __init__(self, func, cls, mod, parent=None):
        self.func, self.cls, self.mod, self.parent = func, cls, mod, parent
        self.selfname = None
        self.yields = None  # ref of generator output
        self.trycount = 0
        self.globals_declared = set()


class Engine:
    """One evaluation context over a Program."""

    def __init__(self, prog, opaque=None, max_depth=6, inline_public=False, no_inline=()):
        self.p = prog
        self.opaque_names = opaque or set()
        self.max_depth = max_depth
        self.inline_public = inline_public
        self.no_inline = set(no_inline)
        self.types: dict = {}
        self.ctor_cache: dict = {}
        self.meth_index: dict = {}
        for c in prog.by_cls.values():
            for n, f in c.members.items():
                self.meth_index.setdefault(n, []).append(f)
        self.getter_alias = {}
        for c in prog.by_cls.values():
            for n, f in c.members.items():
                a = trivial_getter(f)
                if a:
                    self.getter_alias[(c, a)] = n
        self.cache = {}

    # ------------------------------------------------------------------ public API
    def run(self, func: Func, cls: Cls | None = None, args: dict | None = None, selfterm=None, types=None) -> Result:
        """Value-number func; parameters are symbolic unless given in args."""
        cls = cls or func.cls
        key = (func, cls, tuple(sorted((k, v) for k, v in (args or {}).items())) if args else None, selfterm)
        if key in self.cache:
            return self.cache[key]
        ev = Evaluator(self)
        outer, self.types = self.types, dict(types or {})  # what is known of the classes of terms belongs to one run
        try:
            r = ev.top(func, cls, args or {}, selfterm)
        finally:
            r_types, self.types = self.types, outer
        r.types = r_types
        self.cache[key] = r
        return r

    def run_expr(self, src, cls=None, mod=None, env=None, func=None):
        """Value-number a specification expression in the scope of a class / module."""
        ev = Evaluator(self)
        node = ast.parse(src.strip(), mode="eval").body
        return ev.spec_expr(node, cls, mod, env or {}, func)

    def run_def(self, src, cls=None, mod=None):
        """Value-number a reference function given as source (specification text), in scope of cls/mod."""
        node = ast.parse(src).body[0]
        f = Func(mod or cls.mod, node, cls)
        return self.run(f, cls)

    # ------------------------------------------------------------------ constructor summaries
    def ctor_params(self, c: Cls):
        """ordered [(name, default term|None)], has_kwargs"""
        init = self.p.find(c, "__init__")
        if init is not None:
            a = init.node.args
            names = [x.arg for x in a.posonlyargs + a.args][1:]
            defs = [None] * (len(names) - len(a.defaults)) + list(a.defaults)
            out = [(n, d, init.mod) for n, d in zip(names, defs)]
            out += [(x.arg, d, init.mod) for x, d in zip(a.kwonlyargs, a.kw_defaults)]
            return out, a.kwarg is not None, a.vararg is not None
        flds = self.p.fields(c)
        if any(isinstance(k, Cls) and (k.is_dataclass or k.anns) for k in self.p.mro(c)):
            return [(n, d, k.mod) for n, (k, d) in flds.items()], False, False
        return None, True, True

    def ctor_store(self, c: Cls) -> dict:
        """attr -> term over ctor parameters, for attributes written in __init__ (incl. super().__init__)."""
        if c in self.ctor_cache:
            return self.ctor_cache[c]
        self.ctor_cache[c] = {}
        init = self.p.find(c, "__init__")
        out = {}
        if init is not None:
            r = self.run(init, c)
            for (o, a), v in r.store.items():
                if o.op == "self":
                    out[a] = v
        else:
            ps, _, _ = self.ctor_params(c)
            for n, _, _ in ps or []:
                out[n] = mk("param", n)
        self.ctor_cache[c] = out
        return out

    def class_alias(self, c, a):
        """canonical attribute name: _x -> x when x is a trivial getter of _x."""
        if c is None:
            return a
        for k in self.p.mro(c):
            if isinstance(k, Cls) and (k, a) in self.getter_alias:
                n = self.getter_alias[(k, a)]
                f = self.p.find(c, n)
                if f is not None and trivial_getter(f) == a:
                    return n
        return a

    def is_opaque(self, f: Func):
        if f.name in self.no_inline:
            return True
        if self.inline_public:
            return False
        return f.name in self.opaque_names


def settings(t):
    """t is an attribute of a constant object of another package (pkg.SETTINGS.a.b)"""
    return t.op == "glob" and any(x.isupper() and len(x) > 1 for x in t.args[0].split(".")[1:-1])


NEW_ARRAY = {"numpy." + x for x in ("zeros", "empty", "full", "ones", "zeros_like", "ones_like", "full_like", "empty_like", "eye", "identity")}
_COUNTER: dict = {}


def counter_loop(s):
    """`while i < n: ...; i += 1` as `for i in range(n): ...` (n and i not otherwise touched by the body)"""
    if s in _COUNTER:
        return _COUNTER[s]
    _COUNTER[s] = None
    t = s.test
    if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1) or len(s.body) < 2:
        return None
    if isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name):
        i, n = t.left.id, t.comparators[0]
    elif isinstance(t.ops[0], ast.Gt) and isinstance(t.comparators[0], ast.Name):
        i, n = t.comparators[0].id, t.left
    else:
        return None
    last = s.body[-1]
    if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i
            and isinstance(last.value, ast.Constant) and last.value.value == 1):
        if not (isinstance(last, ast.Assign) and len(last.targets) == 1 and ast.unparse(last).replace(" ", "") in (f"{i}={i}+1", f"{i}=1+{i}")):
            return None
    body = s.body[:-1]
    for x in body:
        for y in ast.walk(x):
            if isinstance(y, (ast.Continue,)):
                return None
            if isinstance(y, ast.Name) and y.id == i and not isinstance(y.ctx, ast.Load):
                return None
    used = {y.id for y in ast.walk(n) if isinstance(y, ast.Name)} - {"len"}
    for y in ast.walk(n):
        if not isinstance(y, (ast.Name, ast.Constant, ast.Load, ast.BinOp, ast.operator, ast.Attribute, ast.Subscript)):
            if not (isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "len"):
                return None
    for x in body:
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and y.id in used and not isinstance(y.ctx, ast.Load):
                return None
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id in used and "len" in ast.unparse(n):
                return None
    f = ast.For(target=ast.Name(i, ast.Store()), iter=ast.Call(ast.Name("range", ast.Load()), [n], []), body=body, orelse=[], type_comment=None)
    ast.copy_location(f, s)
    ast.copy_location(f.iter, s)
    ast.fix_missing_locations(f)
    _COUNTER[s] = f
    return f


def trivial_getter(f: Func):
    """attr name if the property only hands out self.<attr> (possibly through locals, no-ops and private helpers)"""
    return getter_attr(f, 0) if f.is_prop else None


def harmless(e):
    return isinstance(e, ast.Constant) or (isinstance(e, ast.Call) and "log" in ast.unparse(e.func).lower())


def getter_attr(f: Func, depth):
    env = {}
    if not f.params:
        return None
    me = f.params[0]

    def val(v):
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == me:
            return v.attr
        if isinstance(v, ast.Name):
            return env.get(v.id)
        if (depth < 3 and isinstance(v, ast.Call) and not v.args and not v.keywords and isinstance(v.func, ast.Attribute)
                and isinstance(v.func.value, ast.Name) and v.func.value.id == me and f.cls is not None and v.func.attr.startswith("_")):
            m = f.cls.members.get(v.func.attr)
            if m is not None and not m.is_prop and len(m.params) == 1:
                return getter_attr(m, depth + 1)
        return None

    for s in f.node.body:
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Assert)) or (isinstance(s, ast.Expr) and harmless(s.value)):
            continue
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            if len(tg) == 1 and isinstance(tg[0], ast.Name):
                if s.value is None or isinstance(s.value, ast.Constant):
                    env[tg[0].id] = None
                    continue
                a = val(s.value)
                if a is not None:
                    env[tg[0].id] = a
                    continue
            return None
        if isinstance(s, ast.Return) and s.value is not None:
            return val(s.value)
        return None
    return None


def ann_kind(node):
    if node is None:
        return None
    s = ast.unparse(node)
    s = s.strip("'\"").replace("None", "").replace("|", "").replace("Optional[", "").strip()
    for pre, k in (
        ("list", "list"), ("List", "list"), ("Sequence", "list"), ("set", "set"), ("Set", "set"), ("frozenset", "set"),
        ("dict", "dict"), ("Dict", "dict"), ("str", "str"), ("np.ndarray", "array"), ("ndarray", "array"),
        ("int", "num"), ("float", "num"), ("tuple", "tuple"),
    ):
        if s == pre or s.startswith(pre + "[") or s.startswith(pre + " "):
            return k
    return None


class Evaluator:
    def __init__(self, eng: Engine):
        self.e = eng
        self.p = eng.p
        self.events: list[Event] = []
        self.loops: list = []  # active loop domains
        self.guards: list = [TRUE]  # outer guard stack
        self.nref = 0
        self.in_new_array = False
        self.ov_back: dict = {}  # current value -> the external object it is the value of
        self.stack: list[Frame] = []
        self.callstack: list = []
        self.unknowns: list = []
        self.lvclose: dict = {}
        self.st: State = State()
        self.inline_depth = 0

    # ------------------------------------------------------------------ entry points
    def top(self, func, cls, args, selfterm=None):
        res = Result(func, cls)
        fr = Frame(func, cls, func.mod)
        self.stack.append(fr)
        st = self.st = State()
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        i = 0
        if (func.cls is not None and not func.is_static) and names:
            if func.is_class:
                st.env[names[0]] = mk("clsobj", cls.name)
            else:
                s = selfterm or mk("self")
                st.env[names[0]] = s
                self.e.types[s] = cls
                self.e.selfcls = cls
                fr.selfname = names[0]
            i = 1
        anns = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        for n in names[i:] + [x.arg for x in a.kwonlyargs]:
            v = args.get(n) or mk("param", n)
            st.env[n] = v
            self._note_type(v, anns.get(n), func.mod)
        if a.vararg:
            st.env[a.vararg.arg] = args.get("*") or mk("param", "*" + a.vararg.arg)
        if a.kwarg:
            st.env[a.kwarg.arg] = args.get("**") or mk("param", "**" + a.kwarg.arg)
        if func.is_gen:
            fr.yields = self.alloc(mk("list", ()))
        out = self.block(func.node.body)
        res.ret, res.ret_pc, end = self._finish(fr, out)
        res.ret = self.deref(res.ret, end)
        res.raises = [(p, x) for p, x in out.raises]
        res.events = self.events
        res.lvclose = self.lvclose
        res.unknowns = self.unknowns
        res.store = {k: self.deref(v, end) for k, v in (end.store if end else {}).items()}
        res.ov = {k: self.deref(v, end) for k, v in (end.ov if end else {}).items()}
        return res

    def _note_type(self, v, ann, mod):
        if ann is None or v.op not in ("param", "attr", "elem", "self"):
            return
        k = ann_kind(ann)
        if k and v not in X.KINDS and v.op == "param":
            # parameter kinds are per run: encode in the term cache only when consistent
            X.KINDS.setdefault(v, k)
            if X.KINDS[v] != k:
                X.KINDS[v] = None
        s = ast.unparse(ann).strip("'\"").replace(" | None", "")
        r = self.p.resolve(mod, s) if s.replace(".", "").isidentifier() else None
        if isinstance(r, Cls):
            self.e.types[v] = r

    def _finish(self, fr, out):
        """Combine outcomes into (value, pc, final state)."""
        rets = list(out.rets)
        if out.fall is not None and out.fall.pc is not FALSE:
            rets.append((out.fall.pc, NONE, out.fall))
        end = None
        val = None
        if fr.yields is not None:
            for pc, _v, s in reversed(rets):
                end = s if end is None else merge(pc, s, end)
            return (fr.yields if end is not None else mk("list", ())), TRUE, end
        pcs = FALSE
        for pc, v, s in reversed(rets):
            val = v if val is None else (ite(pc, v, val) if _bounded(pc, v, val) else mk("phi", pc.dg, v, val))
            end = s if end is None else merge(pc, s, end)
            pcs = b_or(pcs, pc)
        if val is None:
            return mk("never"), FALSE, State(pc=FALSE)
        val = X.constrain(val, pcs)
        return val, pcs, end

    def spec_expr(self, node, cls, mod, env, func=None):
        fr = Frame(func, cls, mod or cls.mod)
        self.stack.append(fr)
        self.st = State()
        if cls is not None:
            s = mk("self")
            self.st.env["self"] = s
            self.e.types[s] = cls
        self.st.env.update(env)
        return self.deref(self.ev(node), self.st)

    # ------------------------------------------------------------------ refs
    def boxed(self, st, value):
        """a variable that holds a container is rebound and mutated in a loop: give it its own cell"""
        self.nref += 1
        r = mk("ref", self.nref)
        st.heap[r] = value
        return r

    def alloc(self, value):
        self.nref += 1
        r = mk("ref", self.nref)
        self.st.heap[r] = value
        return r

    def deref(self, t, st=None):
        st = st or self.st
        if t is None or st is None:
            return t
        if not hasref(t):
            return t
        m = {}
        return self._deref(t, st, m, 0)

    def _deref(self, t, st, memo, depth):
        if t in memo:
            return memo[t]
        if not hasref(t):
            return t
        if t.op == "ref":
            memo[t] = mk("cyc")
            r = self._deref(st.heap.get(t, mk("lostref")), st, memo, depth + 1)
            memo[t] = r
            return r
        ch = tuple(self._deref_arg(a, st, memo, depth) for a in t.args)
        r = X.rebuild(t.op, ch)
        memo[t] = r
        return r

    def _deref_arg(self, a, st, memo, depth):
        if isinstance(a, T):
            return self._deref(a, st, memo, depth)
        if isinstance(a, tuple):
            return tuple(self._deref_arg(x, st, memo, depth) for x in a)
        return a

    def v(self, node):
        return self.deref(self.ev(node))

    # ------------------------------------------------------------------ events
    def emit(self, kind, *data, node=None):
        g = b_and(self.guards[-1], self.st.pc)
        fr = self.stack[-1]
        self.events.append(
            Event(kind, tuple(data), g, tuple(self.loops), fr.func.qual if fr.func else "?",
                  getattr(node, "lineno", 0) or 0, fr.mod.rel)
        )

    # ------------------------------------------------------------------ statements
    def block(self, stmts) -> Out:
        out = Out(None)
        for s in stmts:
            if self.st is None or self.st.pc is FALSE:
                break
            o = self.stmt(s)
            if o is not None:
                out.rets += o.rets
                out.conts += o.conts
                out.brks += o.brks
                out.raises += o.raises
                self.st = o.fall
        out.fall = self.st if self.st is not None and self.st.pc is not FALSE else None
        return out

    def stmt(self, s) -> Out | None:
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknowns.append(type(s).__name__)
            return None
        self._pending = []
        raises_mark = len(self._raise_sink) if hasattr(self, "_raise_sink") else 0
        if not hasattr(self, "_raise_sink"):
            self._raise_sink = []
        r = m(s)
        if len(self._raise_sink) > raises_mark:
            new = self._raise_sink[raises_mark:]
            del self._raise_sink[raises_mark:]
            if r is None:
                r = Out(self.st)
            r.raises = list(r.raises) + new
        return r

    def s_Pass(self, s):
        return None

    s_Import = s_ImportFrom = s_Nonlocal = s_Pass

    def s_ImportFrom(self, s):
        for a in s.names:
            self.st.env[a.asname or a.name] = self.global_value(self.p.resolve_abs(f"{s.module}.{a.name}"), f"{s.module}.{a.name}")

    def s_Import(self, s):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            self.st.env[n] = mk("glob", a.name if a.asname else n)

    def s_Global(self, s):
        return None

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return None
        t = self.ev(s.value)
        if isinstance(s.value, ast.Call) and t.op == "call":
            self.emit("discard", self.deref(t), node=s)
        return None

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.ev(s.value)
            self.assign(s.target, v, s)

    def s_AugAssign(self, s):
        rhs = self.ev(s.value)
        if isinstance(s.target, ast.Name):
            cur = self.st.env.get(s.target.id, UNDEF)
            val = self.binop(s.op, cur, rhs)
            if cur.op == "ref" or (cur.op == "ite" and hasref(cur)):
                base = self.deref(cur)
                if X.kind_of(base) in ("list", "dict", "set", "array") or True:
                    self.mutate(cur, lambda old: self.binop(s.op, old, self.deref(rhs)), s, "aug")
                    return
            else:
                k = self.kindof(cur)
                dr = self.deref(rhs)
                if isinstance(s.op, ast.Add) and cur.op in ("idx", "attr", "param", "elem", "ite", "call", "concat") and k in ("list", None) \
                        and (isinstance(s.value, (ast.List, ast.ListComp)) and dr.op == "list" or isinstance(s.value, ast.Call)
                             and isinstance(s.value.func, ast.Name) and s.value.func.id in ("list", "sorted") or self.kindof(dr) == "list"):
                    # list += list changes the list in place
                    if dr.op == "list" and len(dr.args[0]) == 1 and dr.args[0][0].op not in ("star", "many"):
                        self.mutate(cur, lambda old: X.concat([old, dr]), s, "append", dr.args[0][0])
                    else:
                        self.mutate(cur, lambda old: X.concat([old, dr]), s, "extend", dr)
                    return
                if k in ("list", "dict", "set", "array") and nonfresh(cur):
                    self.emit("mut", mk("const", "aug"), cur, self.deref(rhs), node=s)
            self.st.env[s.target.id] = self.deref(val) if not isinstance(s.op, ast.Add) else val
            return
        if isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value)
            cur = self.getattr_(o, s.target.attr, s.target)
            self.setattr_(o, s.target.attr, self.binop(s.op, cur, rhs), s, aug=True)
            return
        if isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value)
            k = self.v(s.target.slice)
            cur = self.subscript(o, k)
            self.setitem(o, k, self.deref(self.binop(s.op, cur, rhs)), s)

    def kindof(self, t):
        k = X.kind_of(t)
        if k:
            return k
        if t.op == "attr":
            c = self.e.types.get(t.args[0])
            if c:
                f = self.p.find(c, t.args[1])
                if f is not None:
                    return ann_kind(f.node.returns)
                for k in self.p.mro(c):
                    for m in getattr(k, "members", {}).values():
                        if m.is_prop and self.e.class_alias(c, m.name) == t.args[1]:
                            kk = ann_kind(m.node.returns)
                            if kk:
                                return kk
        return None

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.v(t.slice)
                self.mutate(o, lambda old: mk("without", old, k), s, "del", k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                self.emit("delattr", self.deref(o), mk("const", t.attr), node=s)
            elif isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        st = self.st
        if st is None:
            return Out(None)
        self.emit("return", self.deref(v), node=s)
        return Out(None, rets=[(st.pc, v, st)])

    def s_Raise(self, s):
        x = self.v(s.exc) if s.exc is not None else mk("reraise")
        self.emit("raise", x, node=s)
        return Out(None, raises=[(self.st.pc, x)])

    def s_Assert(self, s):
        return None

    def s_Continue(self, s):
        return Out(None, conts=[(self.st.pc, self.st)])

    def s_Break(self, s):
        return Out(None, brks=[(self.st.pc, self.st)])

    def cond(self, node) -> T:
        return self.truth(self.ev(node))

    def truth(self, t):
        t = self.deref(t)
        return X.truthy(t)

    def s_If(self, s):
        c = self.cond(s.test)
        st0 = self.st
        if st0 is None:
            return Out(None)
        c = X.constrain(c, st0.pc) if st0.pc is not TRUE else c
        outs = []
        for body, cc in ((s.body, c), (s.orelse, b_not(c))):
            if cc is FALSE:
                outs.append(Out(None))
                continue
            self.st = st0.copy()
            self.st.pc = b_and(st0.pc, cc)
            if self.st.pc is FALSE:
                outs.append(Out(None))
                continue
            outs.append(self.block(body) if body else Out(self.st))
        a, b = outs
        r = Out(merge(c, a.fall, b.fall))
        for o in outs:
            r.rets += o.rets
            r.conts += o.conts
            r.brks += o.brks
            r.raises += o.raises
        return r

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s)
        return self.block(s.body)

    def s_Try(self, s):
        pre = self.st.copy()
        fr = self.stack[-1]
        fr.trycount += 1
        n = fr.trycount
        body = self.block(s.body)
        if s.orelse and body.fall is not None:
            self.st = body.fall
            o = self.block(s.orelse)
            body.rets += o.rets
            body.conts += o.conts
            body.brks += o.brks
            body.raises += o.raises
            body.fall = o.fall
        res = Out(body.fall)
        res.rets, res.conts, res.brks = body.rets, body.conts, body.brks
        caught = [(p, x) for p, x in body.raises]
        fall = body.fall
        for h in s.handlers:
            ty = ast.unparse(h.type) if h.type is not None else "*"
            at = X.atom(mk("exc", ty, n))
            self.st = pre.copy()
            self.st.pc = b_and(pre.pc, at)
            if h.name:
                self.st.env[h.name] = mk("excval", ty, n)
            self.loop_assigned_unknown(s.body)
            ho = self.block(h.body)
            nat = b_not(at)
            if fall is not None:
                fall = State(fall.env, fall.heap, fall.store, fall.ov, b_and(fall.pc, nat))
            res.rets = [(b_and(p, nat), v, st) for p, v, st in res.rets]
            res.conts = [(b_and(p, nat), st) for p, st in res.conts]
            res.brks = [(b_and(p, nat), st) for p, st in res.brks]
            fall = merge(at, ho.fall, fall) if ho.fall is not None else fall
            res.rets += ho.rets
            res.conts += ho.conts
            res.brks += ho.brks
            res.raises += ho.raises
        if not s.handlers:
            res.raises += caught
        res.fall = fall
        if s.finalbody and fall is not None:
            self.st = fall
            o = self.block(s.finalbody)
            res.fall = o.fall
            res.rets += o.rets
            res.raises += o.raises
        return res

    def loop_assigned_unknown(self, body):
        return

    def s_FunctionDef(self, s):
        self.st.env[s.name] = self.closure(s)

    def s_ClassDef(self, s):
        self.unknowns.append("ClassDef")

    def closure(self, node):
        self.nref += 1
        t = mk("fn", self.nref)
        CLOSURES[t] = (node, self.st, self.stack[-1])
        return t

    # ------------------------------------------------------------------ loops
    def s_For(self, s):
        S = self.v(s.iter)
        return self.loop(S, s.target, s.body, s.orelse, s)

    def s_While(self, s):
        f = counter_loop(s)
        if f is not None and self.st.env.get(f.target.id) is not None:
            pre = self.st.env[f.target.id]
            lo = self.deref(pre)
            hi = self.v(f.iter.args[0])
            if X.is_num(lo):
                i = f.target.id
                if X.is_const(lo, 0):
                    f.iter.args = [f.iter.args[0]]
                else:
                    f.iter.args = [ast.copy_location(ast.Constant(int(lo.args[0])), s), f.iter.args[0]]
                ast.fix_missing_locations(f)
                out = self.s_For(f)
                if out is not None and out.fall is not None and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
                    out.fall.env[i] = X.lift(lambda h: h, hi) if X.is_const(lo, 0) else mk("call", mk("glob", "max"), (lo, hi), ())
                return out
        return self.while_(s)

    def iter_elem(self, S):
        """domain -> (domain key, level, element term, filter condition)."""
        # strip order/copy wrappers
        while True:
            if S.op == "call" and S.args[0].op == "glob" and S.args[0].args[0].split(".")[-1] in ("tqdm", "track") and S.args[1]:
                S = S.args[1][0]
                continue
            if S.op == "keys":
                S = S.args[0]
                continue
            break
        if S.op == "items":
            d, lv, e, c = self.iter_elem(S.args[0])
            return d, lv, mk("tuple", (e, X.t_idx(S.args[0], e))), c
        if S.op == "values":
            d, lv, e, c = self.iter_elem(S.args[0])
            return d, lv, X.t_idx(S.args[0], e), c
        if S.op == "enumerate":
            d, lv, e, c = self.iter_elem(S.args[0])
            if c is TRUE:
                return d, lv, mk("tuple", (X.t_add(mk("pos", d, lv), S.args[1]), e)), c
        if S.op == "zip":
            parts = S.args[0]
            d, lv, e0, c = self.iter_elem(parts[0])
            if c is TRUE:
                es = [e0]
                for q in parts[1:]:
                    es.append(self.at_pos(q, d, lv))
                return d, lv, mk("tuple", tuple(es)), c
        if S.op == "range":
            lo, hi, st = S.args
            if X.is_const(lo, 0) and X.is_const(st, 1) and hi.op == "len":
                d, lv, _e, c = self.iter_elem(hi.args[0])
                if c is TRUE:
                    return d, lv, mk("pos", d, lv), c
        if S.op == "comp" and S.args[0] == "list":
            _, dom, body = S.args
            ls = X.leaf_values(body)
            vals = {l.args[0] for l in ls}
            if all(len(v) <= 1 and all(p.op == "one" for p in v) for v in vals):
                c = X.body_pred(body)
                elts = X.map_leaves(body, lambda l: l.args[0][0].args[0] if l.args[0] else mk("nothing"))
                elt = X.constrain(elts, c)
                lv = self.level(dom)
                if lv:
                    elt = relevel(elt, dom, 0, lv)
                    c = relevel(c, dom, 0, lv)
                return dom, lv, elt, c
        if S.op == "comp" and X.self_keyed(S) is not None:
            return self.iter_elem(S.args[1])
        d = X.dom_canon(S)
        lv = self.level(d)
        e = mk("elem", d, lv)
        t = self.elem_type(S)
        if t:
            self.e.types[e] = t
        return d, lv, e, TRUE

    def elem_type(self, S):
        return self.e.types.get(mk("elemtype", S))

    def level(self, d):
        return sum(1 for x in self.loops if x is d)

    def at_pos(self, q, d, lv):
        """value of sequence q at the position of the current element of domain d"""
        if q.op == "range" and X.is_const(q.args[0], 0) and X.is_const(q.args[2], 1):
            return mk("pos", d, lv)
        if q.op == "count":
            return X.t_add(mk("pos", d, lv), q.args[0])
        if q.op == "comp" and q.args[0] == "list" and q.args[1] is d:
            ls = X.leaf_values(q.args[2])
            if all(len(l.args[0]) == 1 and l.args[0][0].op == "one" for l in ls):
                elt = X.map_leaves(q.args[2], lambda l: l.args[0][0].args[0])
                return relevel(elt, d, 0, lv) if lv else elt
        if X.dom_canon(q) is d:
            return mk("elem", d, lv)
        return X.t_idx(q, mk("pos", d, lv))

    def loop(self, S, target, body, orelse, s):
        dom, lv, elem, filt = self.iter_elem(S)
        pre = self.st
        # unroll short literal sequences
        if S.op in ("list", "tuple") and len(S.args[0]) <= 4 and not orelse:
            return self.unrolled(S.args[0], target, body, s)
        lid = mk("loopid", len(self.loops), dom)
        carried: dict = {}  # key -> lv term
        ev_mark = len(self.events)
        base_nref = self.nref
        assigned = sorted(assigned_names(body))
        for name in assigned:
            carried[("env", name)] = mk("lv", "env:" + name, lid)
        for attempt in range(5):
            del self.events[ev_mark:]
            st = pre.copy()
            st.pc = TRUE
            for (space, key), l in carried.items():
                m = getattr(st, space)
                init = m.get(key)
                if init is None:
                    init = {"env": UNDEF, "store": attr_raw(*key) if space == "store" else None, "ov": key}.get(space, UNDEF)
                k = X.kind_of(self.deref(init, pre)) if init is not None else None
                if k:
                    X.KINDS[l] = k
                if space == "ov":
                    self.ov_back[l] = key
                m[key] = self.boxed(st, l) if space == "env" and init is not None and init.op == "ref" else l
            self.st = st
            self.loops.append(dom)
            self.guards.append(b_and(self.guards[-1], pre.pc))
            mark = self.st.copy()
            if filt is not TRUE:
                self.st.pc = filt
            self.assign(target, elem, s)
            out = self.block(body)
            self.loops.pop()
            self.guards.pop()
            ends = []
            if out.fall is not None:
                ends.append((out.fall.pc, out.fall))
            ends += out.conts
            if filt is not TRUE:
                m2 = mark.copy()
                m2.pc = b_not(filt)
                ends.append((m2.pc, m2))
            brk = FALSE
            for pc, b in out.brks:
                brk = b_or(brk, pc)
                ends.append((pc, b))
            end = None
            for pc, e in ends:
                end = e if end is None else merge(pc, e, end, b_or(pc, end.pc))
            # discover changed keys
            new = {}
            if end is not None:
                for space in ("env", "heap", "store", "ov"):
                    m0, m1 = getattr(mark, space), getattr(end, space)
                    for k, v in m1.items():
                        if (space, k) in carried:
                            continue
                        if space == "heap" and k not in pre.heap:
                            continue
                        if space == "env" and k not in pre.env:
                            continue
                        if space == "ov" and fresh_value(k, dom, lid, pre):
                            continue
                        if m0.get(k) is not v:
                            new[(space, k)] = mk("lv", f"{space}:{X._digest(k).hex() if space != 'env' else k}", lid)
            if not new:
                break
            carried.update(new)
        rets, raises = out.rets, out.raises
        res = Out(None)
        post = pre.copy()
        exit_by_ret = FALSE
        for pc, _v, _s in rets:
            exit_by_ret = b_or(exit_by_ret, pc)
        stop = b_or(brk, exit_by_ret)
        if stop is not FALSE:
            n = len(self.loops)
            for e in self.events[ev_mark:]:
                if len(e.loops) > n and e.loops[n] is dom:
                    e.loops = e.loops[:n] + (mk("until", dom, stop),) + e.loops[n + 1:]
        for pc, _x in raises:
            exit_by_ret = b_or(exit_by_ret, pc)
        if end is not None:
            self.close_loop(post, pre, end, carried, dom, lv, lid, brk, exit_by_ret)
            # stores/ov/heap introduced
        # returns
        after = TRUE
        for pc, v, rst in rets:
            vv = self.deref(v, rst)
            cc = exists_c(dom, pc)
            val = vv
            if any((t.op in ("elem", "pos") and t.args[0] is dom) or (t.op == "lv" and t.args[1] is lid) for t in X.marks(vv)):
                val = mk("first", dom, pc, vv)
            st2 = post.copy()
            st2.pc = b_and(pre.pc, after, cc)
            res.rets.append((st2.pc, val, st2))
            after = b_and(after, b_not(cc))
        for pc, x in raises:
            cc = exists_c(dom, pc)
            res.raises.append((b_and(pre.pc, after, cc), x))
            after = b_and(after, b_not(cc))
        post.pc = b_and(pre.pc, after)
        if post.pc is FALSE:
            return res
        if orelse:
            self.st = post.copy()
            cbrk = exists_c(dom, brk)
            self.st.pc = b_and(post.pc, b_not(cbrk))
            oo = self.block(orelse)
            brkst = post.copy()
            brkst.pc = b_and(post.pc, cbrk)
            res.rets += oo.rets
            res.raises += oo.raises
            res.conts += oo.conts
            res.brks += oo.brks
            res.fall = merge(cbrk, brkst if brkst.pc is not FALSE else None, oo.fall)
        else:
            res.fall = post
        return res

    def unrolled(self, items, target, body, s):
        res = Out(None)
        brks = []
        for it in items:
            if self.st is None or self.st.pc is FALSE:
                break
            self.assign(target, it, s)
            o = self.block(body)
            res.rets += o.rets
            res.raises += o.raises
            st = o.fall
            for pc, c in o.conts:
                st = c if st is None else merge(pc, c, st)
            brks += o.brks
            self.st = st
        st = self.st
        for pc, b in brks:
            st = b if st is None else merge(pc, b, st)
        res.fall = st
        return res

    def while_(self, s):
        pre = self.st
        dom = mk("whiledom", len(self.loops), len(self.events))
        lid = mk("loopid", len(self.loops), dom)
        carried = {("env", n): mk("lv", "env:" + n, lid) for n in sorted(assigned_names(s.body))}
        ev_mark = len(self.events)
        for _ in range(5):
            del self.events[ev_mark:]
            st = pre.copy()
            st.pc = TRUE
            for (space, key), l in carried.items():
                i = getattr(pre, space).get(key)
                if space == "ov":
                    self.ov_back[l] = key
                getattr(st, space)[key] = self.boxed(st, l) if space == "env" and i is not None and i.op == "ref" else l
            self.st = st
            self.loops.append(dom)
            self.guards.append(b_and(self.guards[-1], pre.pc))
            c = self.cond(s.test)
            mark = self.st.copy()
            self.st.pc = c
            out = self.block(s.body)
            self.loops.pop()
            self.guards.pop()
            ends = ([(out.fall.pc, out.fall)] if out.fall is not None else []) + out.conts
            brk = FALSE
            for pc, b in out.brks:
                brk = b_or(brk, pc)
                ends.append((pc, b))
            end = None
            for pc, e in ends:
                end = e if end is None else merge(pc, e, end, b_or(pc, end.pc))
            new = {}
            if end is not None:
                for space in ("env", "heap", "store", "ov"):
                    m0, m1 = getattr(mark, space), getattr(end, space)
                    for k, v in m1.items():
                        if (space, k) in carried or (space == "heap" and k not in pre.heap) or (space == "env" and k not in pre.env):
                            continue
                        if space == "ov" and fresh_value(k, dom, lid, pre):
                            continue
                        if m0.get(k) is not v:
                            new[(space, k)] = mk("lv", f"{space}:{X._digest(k).hex() if space != 'env' else k}", lid)
            if not new:
                break
            carried.update(new)
        res = Out(None)
        post = pre.copy()
        wd = mk("whl", c, brk)
        if end is not None:
            self.fold_all(post, pre, end, carried, wd, lid)
        after = TRUE
        for pc, v, rst in out.rets:
            at = X.atom(mk("wexists", wd, pc))
            st2 = post.copy()
            st2.pc = b_and(pre.pc, after, at)
            res.rets.append((st2.pc, mk("first", wd, pc, self.deref(v, rst)), st2))
            after = b_and(after, b_not(at))
        for pc, x in out.raises:
            at = X.atom(mk("wexists", wd, pc))
            res.raises.append((b_and(pre.pc, after, at), x))
            after = b_and(after, b_not(at))
        post.pc = b_and(pre.pc, after)
        res.fall = post if post.pc is not FALSE and not (c is TRUE and brk is FALSE) else None
        return res

    def close_loop(self, post, pre, end, carried, dom, lv, lid, brk, exit_by_ret):
        nxt = {}
        init = {}
        for (space, key), l in carried.items():
            v = getattr(end, space).get(key)
            if v is None:
                continue
            i = getattr(pre, space).get(key)
            if i is None:
                i = {"env": UNDEF, "store": attr_raw(*key) if space == "store" else UNDEF, "ov": key if isinstance(key, T) else UNDEF}.get(space, UNDEF)
            nxt[l] = self.deref_new(v, end, pre)
            init[l] = i
        # position counters
        pos = mk("pos", dom, lv)
        sub = {}
        for l, v in nxt.items():
            d = X.add2(v, l, -1) if v.op != "ite" else None
            if d is not None and X.is_const(d, 1) and X.is_num(init[l]):
                sub[l] = X.t_add(pos, init[l])
        # variables not changed
        for l, v in nxt.items():
            if v is l:
                sub[l] = init[l] if init[l].op != "ref" else l
        if sub:
            for l in list(nxt):
                if l not in sub:
                    nxt[l] = X.subst(nxt[l], {k: v for k, v in sub.items() if v is not k})
            brk = X.subst(brk, {k: v for k, v in sub.items() if v is not k})
        self.same_keys(nxt, init, pre)
        idom = dom if brk is FALSE else mk("until", dom, brk)
        for l in nxt:
            self.lvclose[l] = (lambda l=l: sub[l]) if l in sub else (lambda l=l: mk("cur", self.fold(l, nxt, init, idom, lid, pre)))
        for (space, key), l in carried.items():
            if l not in nxt:
                continue
            v = nxt[l]
            i = init[l]
            m = getattr(post, space)
            if v is l:
                m[key] = i
                if i is UNDEF:
                    m.pop(key, None)
                continue
            val = self.product(l, v, i, idom, dom, lid, nxt, init, pre, sub)
            m[key] = self.boxed(post, val) if space == "env" and i.op == "ref" and val.op != "ref" else val

    def same_keys(self, nxt, init, pre):
        """dictionaries that start empty and gain the same keys in every iteration have the same key set: a
        membership test on one of them is a membership test on the other (by induction over the iterations)."""
        cand = {}
        for l, v in nxt.items():
            i = self.deref(init[l], pre)
            if i.op != "dict" or i.args[0] or v is l:
                continue
            for at in X.dd_atoms(v):
                if at.op == "in":
                    cand.setdefault(at.args[0], set()).add(l)
        for k, ls in cand.items():
            new = {}
            for l in ls:
                v = nxt[l]
                ren = {at: mk("in", k, l) for at in X.dd_atoms(v) if at.op == "in" and at.args[0] is k and at.args[1] in ls}
                v2 = rename_dd(v, ren)
                v2 = group_append_leaf(v2, k)
                new[l] = v2
            guards = {tuple(sorted((at.dg for at in X.dd_atoms(v)))) for v in new.values()}
            if len(guards) == 1 and all(keyed(x, l, k) for l, v in new.items() for x in X.leaf_values(v)):
                if len(ls) == 1 or len({bool_shape(v, l) for l, v in new.items()}) == 1:
                    nxt.update(new)

    def deref_new(self, v, end, pre):
        """deref only refs allocated inside the loop body (keep outer refs symbolic)"""
        if not hasref(v):
            return v
        memo = {}
        for r in pre.heap:
            memo[r] = r
        return self._deref(v, end, memo, 0)

    def product(self, l, v, i, idom, dom, lid, nxt, init, pre, sub):
        ii = self.deref(i, pre)
        others = lambda t: any(x.op == "lv" and x.args[1] is lid for x in X.marks(t))
        ls = X.leaf_values(v)
        body = None
        kind = None
        # temp variable: value does not depend on any loop-carried value
        if not others(v):
            if all(x in (TRUE, FALSE) for x in ls) and False:
                pass
            return mk("last", idom, v, ii) if not X.is_const(v) or True else v
        guards_clean = all(not others(a) for a in X.dd_atoms(v))
        if guards_clean:
            # list append / extend
            def pieces(x):
                if x is l:
                    return "any", ()
                if x.op == "concat" and x.args[0][0] is l and not any(others(y) for y in x.args[0][1:]):
                    ps = []
                    for y in x.args[0][1:]:
                        ps += [mk("one", z) for z in y.args[0]] if y.op == "list" else [mk("many", y)]
                    return "list", tuple(ps)
                if x.op == "setop" and x.args[0] == "union" and l in x.args[1]:
                    rest = [y for y in x.args[1] if y is not l]
                    if not any(others(y) for y in rest):
                        ps = []
                        for y in rest:
                            ps += [mk("one", z) for z in y.args[0]] if y.op == "setlit" else [mk("many", y)]
                        return "set", tuple(ps)
                if x.op == "dictupd":
                    ps = []
                    y = x
                    while y.op == "dictupd":
                        if others(y.args[1]) or others(y.args[2]):
                            return None
                        ps.insert(0, mk("one", mk("tuple", (y.args[1], y.args[2]))))
                        y = y.args[0]
                    if y is l:
                        return "dict", tuple(ps)
                if x.op == "kappend":
                    ps = []
                    y = x
                    while y.op == "kappend":
                        if others(y.args[1]) or others(y.args[2]):
                            return None
                        ps.insert(0, mk("kap", *y.args[1:]))
                        y = y.args[0]
                    if y is l:
                        return "dict", tuple(ps)
                d = X._poly_items(x)
                if d.get(((l, 1),)) == 1:
                    delta = X.add2(x, l, -1)
                    if not others(delta):
                        return "num", (mk("one", delta),)
                return None

            infos = {x: pieces(x) for x in ls}
            if all(q is not None for q in infos.values()):
                kinds = {q[0] for q in infos.values() if q[0] != "any"}
                if len(kinds) == 1:
                    kind = kinds.pop()
                    body = X.map_leaves(v, lambda x: X.seq_of(infos[x][1]))
        if body is not None:
            if kind == "num":
                return X.t_add(ii, X.t_sum(X.comp("list", idom, body)))
            c = X.comp(kind, idom, body)
            if kind == "list":
                return X.lift(lambda a: X.concat([a, c]), ii)
            if kind == "set":
                return X.lift(lambda a: X.setop("union", a, c), ii)
            if ii.op == "dict" and not ii.args[0]:
                return c
            g = known_key_append(ii, idom, body)
            if g is not None:
                return g
            return mk("dictmerge", ii, c)
        # boolean flags
        if guards_clean and all(x is l or x in (TRUE, FALSE) for x in ls) and ii in (TRUE, FALSE):
            consts = {x for x in ls if x is not l}
            if len(consts) == 1:
                cv = consts.pop()
                cond = X.lift_bool(v, lambda x: FALSE if x is l else TRUE)
                ex = exists_c(idom, cond)
                return ite(ex, cv, ii)
        # general fold, closed over the loop variables it depends on
        return self.fold(l, nxt, init, idom, lid, pre)

    def fold(self, l, nxt, init, idom, lid, pre):
        need, st = {l: None}, [l]
        while st:
            for t in X.marks(nxt[st.pop()]):
                if t.op == "lv" and t.args[1] is lid and t in nxt and t not in need:
                    need[t] = None
                    st.append(t)
        order = [l]
        if len(need) > 1:
            # number the other carried values by what they compute, not by how they are called or ordered in the source
            col = {x: mk("col", b"l" if x is l else self.deref(init[x], pre).dg) for x in need}
            for _ in range(3 if len(need) > 2 else 0):
                col = {x: mk("col", b"l" if x is l else col[x].dg, X.subst(nxt[x], col).dg) for x in need}
            order += sorted((x for x in need if x is not l), key=lambda x: (col[x].dg, x.dg))
        # dependencies introduced by the domain's break condition
        ren = {x: mk("acc", n) for n, x in enumerate(order)}
        # the placeholders have the kind of what they stand for only here: other folds use the same placeholders
        old = {ren[x]: X.KINDS.get(ren[x]) for x in order}
        for x in order:
            X.KINDS[ren[x]] = X.kind_of(x)
        nx = tuple(X.subst(nxt[x], ren) for x in order)
        dom = X.subst(idom, ren)
        X.KINDS.update(old)
        ini = tuple(self.deref(init[x], pre) for x in order)
        return mk("fold", dom, ini, nx)

    def fold_all(self, post, pre, end, carried, wd, lid):
        nxt, init = {}, {}
        for (space, key), l in carried.items():
            v = getattr(end, space).get(key)
            if v is None:
                continue
            i = getattr(pre, space).get(key)
            if i is None:
                i = UNDEF
            nxt[l] = self.deref_new(v, end, pre)
            init[l] = i
        for l in nxt:
            self.lvclose[l] = (lambda l=l: self.deref(init[l], pre)) if nxt[l] is l else (lambda l=l: mk("cur", self.fold(l, nxt, init, wd, lid, pre)))
        for (space, key), l in carried.items():
            if l not in nxt:
                continue
            if nxt[l] is l:
                getattr(post, space)[key] = init[l]
            else:
                v = self.fold(l, nxt, init, wd, lid, pre)
                getattr(post, space)[key] = self.boxed(post, v) if space == "env" and init[l].op == "ref" else v

    # ------------------------------------------------------------------ assignment
    def assign(self, target, v, s):
        if isinstance(target, ast.Name):
            self.st.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            vd = self.deref(v)
            n = len(target.elts)
            star = [i for i, t in enumerate(target.elts) if isinstance(t, ast.Starred)]
            for i, t in enumerate(target.elts):
                if isinstance(t, ast.Starred):
                    hi = NONE if i == n - 1 else const(i - n + 1)
                    self.assign(t.value, X.t_idx(vd, mk("slice", const(i), hi, NONE)), s)
                else:
                    k = i if not star or i < star[0] else i - n
                    if v.op in ("tuple", "list"):
                        self.assign(t, v.args[0][k] if -len(v.args[0]) <= k < len(v.args[0]) else mk("undef"), s)
                    else:
                        self.assign(t, X.t_idx(vd, const(k)), s)
        elif isinstance(target, ast.Attribute):
            o = self.ev(target.value)
            self.setattr_(o, target.attr, v, s)
        elif isinstance(target, ast.Subscript):
            o = self.ev(target.value)
            k = self.v(target.slice)
            shared = v.op == "ref" and o.op == "ref" and self.deref(v).op not in ("idx", "elem", "lv", "attr") and not any(a.op == "in" and a.args[0] is k for a in X.dd_atoms(self.st.pc))
            self.setitem(o, k, v if shared else self.deref(v), s, node=target)  # it may still change while it is stored there
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, s)

    def setattr_(self, o, name, v, s, aug=False):
        if o.op == "ref":
            h = self.st.heap.get(o)
            if h is not None and h.op == "new":
                flds = dict(h.args[1])
                flds[name] = self.deref(v)
                self.st.heap[o] = mk("new", h.args[0], tuple(sorted(flds.items())))
                self.emit("setattr", self.deref(o), mk("const", name), self.deref(v), mk("const", "fresh"), node=s)
                return
        od = self.deref(o)
        c = self.e.types.get(od)
        name = self.e.class_alias(c, name)
        if c is not None and name in {n for k in self.p.mro(c) if isinstance(k, Cls) for n in k.setters}:
            f = next(k.setters[name] for k in self.p.mro(c) if isinstance(k, Cls) and name in k.setters)
            ps = f.params
            self.inline(f, c, od, {ps[1]: v}, s)
            return
        self.st.store[(od, name)] = v
        self.emit("setattr", od, mk("const", name), self.deref(v), mk("const", "fresh" if not nonfresh(od) else "ext"), node=s)

    def setitem(self, o, k, v, s, node=None):
        self.mutate(o, lambda old: upd(old, k, v), s, "setitem", k, v)

    def mutate(self, o, f, s, name, *args):
        """Apply functional update f to the object denoted by o."""
        while o in self.ov_back and self.st.ov.get(self.ov_back[o]) is o:
            o = self.ov_back[o]
            if o.op == "ref":
                break
        if o.op == "ref":
            h = self.st.heap.get(o, mk("lostref"))
            if h.op == "ref":
                return self.mutate(h, f, s, name, *args)
            self.st.heap[o] = X.lift(f, h) if X.n_leaves(h) < 32 else f(h)
            return
        if o.op == "ite" and hasref(o):
            for g, leaf in list(X.leaves(o)):
                if leaf.op == "ref":
                    old = self.st.heap[leaf]
                    self.st.heap[leaf] = ite(g, f(old), old)
                else:
                    self.ext_mut(leaf, f, s, name, args, g)
            return
        if o.op == "idx" and root_of(o).op == "ref":
            # element of a fresh container
            base, k = o.args
            app = None
            if name in ("append", "add", "extend", "update"):
                app = mk("kap1" if name in ("append", "add") else "kapn", const("set" if name in ("add", "update") else "list"), args[0])

            def g(old):
                r = X.lift(lambda h: elem_upd(h, k, f, app), old)
                return group_append(r, k)

            self.mutate(base, g, s, "setitem", k)
            return
        if o.op in ("list", "dict", "setlit", "comp", "concat", "dictupd", "sorted", "tuple", "setop", "toset", "poly", "const", "sum"):
            return  # unnamed temporary
        if o.op == "ite" and X.n_leaves(o) < 8 and all(l.op == "idx" and not nonfresh(l) for _, l in X.leaves(o)):
            for g, leaf in list(X.leaves(o)):
                self.ext_mut(leaf, f, s, name, args, g)
            return
        self.ext_mut(o, f, s, name, args, TRUE)

    def ext_mut(self, o, f, s, name, args, g):
        od = self.deref(o)
        kind = "mut" if nonfresh(od) else "mutlocal"
        save = self.st.pc
        self.st.pc = b_and(self.st.pc, g)
        self.emit(kind, mk("const", name), od, *[self.deref(a) for a in args], node=s)
        self.st.pc = save
        new = f(self.st.ov.get(od, od))
        self.st.ov[od] = ite(g, new, self.st.ov.get(od, od)) if g is not TRUE else new
        if od not in (TRUE, FALSE, NONE) and self.st.ov[od] is not od:
            self.ov_back[self.st.ov[od]] = od
        if kind == "mutlocal":
            # an element of a fresh object: the object it belongs to changes as well
            n = 0
            while od.op == "idx" and n < 6 and not nonfresh(od.args[0]):
                n += 1
                base, k = od.args
                while base in self.ov_back and self.st.ov.get(self.ov_back[base]) is base:
                    base = self.ov_back[base]
                if base.op == "ref" or hasref(base):
                    break
                cur = self.st.ov.get(base, base)
                self.st.ov[base] = ite(g, upd(cur, k, self.st.ov[od]), cur)
                if self.st.ov[base] is not base:
                    self.ov_back[self.st.ov[base]] = base
                od = base

    # ------------------------------------------------------------------ expressions
    def ev(self, n) -> T:
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.unknowns.append(type(n).__name__)
            return mk("top", type(n).__name__, getattr(n, "lineno", 0))
        return m(n)

    def e_Constant(self, n):
        return const(n.value) if not isinstance(n.value, (bytes, type(...), complex)) else mk("const", repr(n.value))

    def e_Name(self, n):
        if n.id in self.st.env:
            t = self.st.env[n.id]
            return self.st.ov.get(t, t) if self.st.ov else t
        return self.name_global(n.id)

    def name_global(self, name):
        fr = self.stack[-1]
        r = self.p.resolve(fr.mod, name)
        if r is None:
            if name in BUILTINS:
                return mk("glob", name)
            r = self.p.anyname(name)  # reference texts may name what the analysed module itself does not import
            if r is not None:
                return self.global_value(r, name)
            return mk("glob", name)
        return self.global_value(r, fr.mod.imports.get(name, name))

    def global_value(self, r, dotted):
        if isinstance(r, Func):
            return mk("glob", r.qual)
        if isinstance(r, Cls):
            return mk("clsobj", r.name)
        if isinstance(r, Module):
            return mk("glob", r.name)
        if isinstance(r, tuple) and r[0] == "const":
            _, mod, name = r
            node = mod.consts[name]
            if isinstance(node, ast.Constant) or (isinstance(node, ast.UnaryOp) and isinstance(node.operand, ast.Constant)):
                try:
                    return const(ast.literal_eval(node))
                except (ValueError, TypeError):
                    pass
            return mk("glob", f"{mod.name}.{name}")
        return mk("glob", r if isinstance(r, str) else dotted)

    def e_Attribute(self, n):
        o = self.ev(n.value)
        return self.getattr_(o, n.attr, n)

    def getattr_(self, o, name, n=None):
        if o.op == "ite":
            return X.lift(lambda x: self.getattr1(x, name, n), o)
        return self.getattr1(o, name, n)

    def getattr1(self, o, name, n):
        if o.op == "glob":
            d = o.args[0] + "." + name
            r = self.p.resolve_abs(d)
            if r is not d and r is not None and not isinstance(r, str):
                return self.global_value(r, d)
            return mk("glob", d)
        if o.op == "clsobj":
            c = self.p.by_cls.get(o.args[0])
            if c is not None:
                f = self.p.find(c, name)
                if f is not None:
                    return mk("bound", o, name)
                a = self.p.find_attr(c, name)
                if a is not None and isinstance(a[1], ast.Constant):
                    return const(a[1].value)
            if name == "__name__":
                return const(o.args[0])
            return mk("attr", o, name)
        if o.op == "ref":
            h = self.st.heap.get(o)
            if (o, name) in self.st.store:
                return self.st.store[(o, name)]
            if h is not None and h.op == "new":
                t = self.new_attr(h, name)
                if t is not None:
                    return t
                c = self.p.by_cls.get(h.args[0])
                f = self.p.find(c, name) if c else None
                if f is not None and not f.is_prop:
                    return mk("bound", o, name)
            return mk("attr", self.deref(o), name)
        if o.op == "new":
            t = self.new_attr(o, name)
            if t is not None:
                return t
        c = self.e.types.get(o)
        name2 = self.e.class_alias(c, name)
        if (o, name2) in self.st.store:
            return self.st.store[(o, name2)]
        if c is not None:
            f = self.p.find(c, name2)
            if f is not None:
                if f.is_prop:
                    if trivial_getter(f) or self.e.is_opaque(f) or not self.can_inline(f):
                        t = mk("attr", o, name2)
                        self._note_type(t, f.node.returns, f.mod)
                        k = ann_kind(f.node.returns)
                        if k and o.op == "self":
                            X.KINDS.setdefault(t, k)
                        return self.st.ov.get(t, t)
                    return self.inline(f, c, o, {}, n)
                return mk("bound", o, name2)
            if o.op == "self" or o.op == "clsobj":
                a = self.p.find_attr(c, name2)
                if a is not None and isinstance(a[1], ast.Constant) and not self._instance_attr(c, name2):
                    return const(a[1].value)
        if name == "__class__":
            if c is not None:
                return mk("clsobj", c.name)
        t = mk("attr", o, name2)
        return self.st.ov.get(t, t)

    def _instance_attr(self, c, name):
        return any(isinstance(k, Cls) and (k.is_dataclass or name in k.anns) for k in self.p.mro(c))

    def new_attr(self, h, name):
        """attribute of a constructed repo object, from the constructor summary."""
        c = self.p.by_cls.get(h.args[0])
        if c is None:
            return None
        flds = dict(h.args[1])
        if "**" in flds or "*" in flds:
            return None
        f = self.p.find(c, name)
        if f is not None and f.is_prop and not trivial_getter(f):
            return None
        nm = self.e.class_alias(c, name)
        if self.e.ctor_depth > 3:
            return None
        self.e.ctor_depth += 1
        try:
            st = self.e.ctor_store(c)
        finally:
            self.e.ctor_depth -= 1
        names = {n for n, _, _ in (self.e.ctor_params(c)[0] or [])}
        if nm in flds and nm not in names:
            return flds[nm]  # overridden after construction
        if nm in st:
            v = st[nm]
            m = {mk("param", k): val for k, val in flds.items()}
            if X.contains(v, lambda t: t.op in ("self", "ref", "acc")) or X.size(v) > 400:
                return None
            return X.subst(v, m)
        return flds.get(nm)

    def e_Subscript(self, n):
        o = self.ev(n.value)
        k = self.v(n.slice)
        return self.subscript(o, k)

    def subscript(self, o, k):
        if o.op == "ref":
            h = self.st.heap.get(o)
            r = X.t_idx(h, k) if h is not None else mk("idx", o, k)
            if r.op == "idx" and r.args[0] is h:
                return mk("idx", o, k) if not hasref(r) and h.op in ("dict", "dictupd", "comp", "kappend") and False else r
            return r
        r = X.t_idx(o, k) if not hasref(o) else X.t_idx(self.deref(o), k)
        return self.st.ov.get(r, r) if self.st.ov else r

    def e_Slice(self, n):
        return mk("slice", *[self.v(x) if x is not None else NONE for x in (n.lower, n.upper, n.step)])

    def e_Tuple(self, n):
        return self.seq_lit(n.elts, "tuple")

    def seq_lit(self, elts, op):
        parts = []
        cur = []
        star = False
        for e in elts:
            if isinstance(e, ast.Starred):
                star = True
                if cur:
                    parts.append(mk("list", tuple(cur)))
                cur = []
                parts.append(self.v(e.value))
            else:
                cur.append(self.deref(self.ev(e)) if op != "tuple" else self.ev(e))
        if not star:
            return mk(op, tuple(cur))
        if cur:
            parts.append(mk("list", tuple(cur)))
        return X.concat(parts)

    def e_List(self, n):
        return self.alloc(self.seq_lit(n.elts, "list"))

    def e_Set(self, n):
        t = self.seq_lit(n.elts, "list")
        return self.alloc(X.to_set(t))

    def e_Dict(self, n):
        cur = mk("dict", ())
        for k, v in zip(n.keys, n.values):
            if k is None:
                cur = dict_merge(cur, self.v(v))
            else:
                cur = upd(cur, self.v(k), self.v(v))
        return self.alloc(cur)

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                t = self.v(v.value)
                sp = ast.unparse(v.format_spec) if v.format_spec is not None else ""
                if sp or v.conversion not in (-1, None):
                    t = mk("fmtspec", t, sp, v.conversion or -1)
                else:
                    t = mk("strof", t)
                parts.append(t)
        return X.fmt(parts)

    def e_IfExp(self, n):
        c = self.cond(n.test)
        st0 = self.st
        vals = []
        sts = []
        for b, cc in ((n.body, c), (n.orelse, b_not(c))):
            if cc is FALSE:
                vals.append(None)
                sts.append(None)
                continue
            self.st = st0.copy()
            self.st.pc = b_and(st0.pc, cc)
            if self.st.pc is FALSE:
                vals.append(None)
                sts.append(None)
                continue
            vals.append(self.ev(b))
            sts.append(self.st)
        self.st = merge(c, sts[0], sts[1])
        if self.st is None:
            self.st = st0
        self.st.pc = st0.pc
        if vals[0] is None:
            return vals[1]
        if vals[1] is None:
            return vals[0]
        return ite(c, vals[0], vals[1])

    def e_BoolOp(self, n):
        vals = []
        st0pc = self.st.pc
        isand = isinstance(n.op, ast.And)
        for x in n.values:
            v = self.ev(x)
            vals.append(v)
            t = self.truth(v)
            self.st.pc = b_and(self.st.pc, t if isand else b_not(t))
        self.st.pc = st0pc
        r = vals[-1]
        for v in reversed(vals[:-1]):
            t = self.truth(v)
            r = ite(t, r, v if not isbool(self.deref(v)) else FALSE) if isand else ite(t, v if not isbool(self.deref(v)) else TRUE, r)
        return r

    def e_UnaryOp(self, n):
        v = self.v(n.operand)
        if isinstance(n.op, ast.Not):
            return b_not(X.truthy(v))
        if isinstance(n.op, ast.USub):
            return X.t_neg(v)
        if isinstance(n.op, ast.Invert):
            if isbool(v):
                return b_not(v)
            return mk("invert", v)
        return v

    def e_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(op, ast.Add):
            return self.fresh_if_seq(X.t_add(a, b))
        if isinstance(op, ast.Sub):
            if self.kindof(a) == "set" and a.op == "attr":
                return X.setop("diff", a, b)
            return X.t_sub(a, b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if x.op in ("list", "fmt") or (x.op == "const" and isinstance(x.args[0], str)):
                    return mk("repeat", x, y)
            return X.t_mul(a, b)
        if isinstance(op, ast.Div):
            return X.t_div(a, b)
        if isinstance(op, ast.Pow):
            return X.t_pow(a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if isbool(a) and isbool(b) and not isinstance(op, ast.BitXor):
                return b_and(a, b) if isinstance(op, ast.BitAnd) else b_or(a, b)
            if isinstance(op, ast.BitOr) and "dict" in (X.kind_of(a), X.kind_of(b)):
                return dict_merge(a, b)
            k = {ast.BitAnd: "inter", ast.BitOr: "union", ast.BitXor: "xor"}[type(op)]
            return X.lift(lambda x, y: X.setop(k, x, y), a, b)
        nm = type(op).__name__
        return X.lift(lambda x, y: mk("bin" + nm, x, y), a, b)

    def fresh_if_seq(self, t):
        return t

    def e_Compare(self, n):
        left = self.v(n.left)
        r = TRUE
        for op, c in zip(n.ops, n.comparators):
            right = self.v(c)
            r = b_and(r, self.compare(op, left, right))
            left = right
        return r

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.Is)):
            return X.c_eq(a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return b_not(X.c_eq(a, b))
        if isinstance(op, ast.Lt):
            return X.c_lt(a, b)
        if isinstance(op, ast.Gt):
            return X.c_lt(b, a)
        if isinstance(op, (ast.LtE, ast.GtE)):
            x, y = (a, b) if isinstance(op, ast.LtE) else (b, a)
            if "set" in (self.kindof(x), self.kindof(y)):
                return X.c_subset(x, y)
            return b_not(X.c_lt(y, x))
        if isinstance(op, ast.In):
            return X.c_in(a, b)
        if isinstance(op, ast.NotIn):
            return b_not(X.c_in(a, b))
        return X.atom(mk("cmp" + type(op).__name__, a, b))

    def e_Lambda(self, n):
        return self.closure(n)

    def e_Starred(self, n):
        return mk("star", self.v(n.value))

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v, n)
        return v

    def e_Yield(self, n):
        v = self.v(n.value) if n.value is not None else NONE
        fr = self.stack[-1]
        self.emit("yield", v, node=n)
        if fr.yields is not None:
            self.mutate(fr.yields, lambda old: X.concat([old, mk("list", (v,))]), n, "append", v)
        return NONE

    def e_YieldFrom(self, n):
        v = self.v(n.value)
        fr = self.stack[-1]
        self.emit("yieldfrom", v, node=n)
        if fr.yields is not None:
            self.mutate(fr.yields, lambda old: X.concat([old, v]), n, "extend", v)
        return NONE

    def e_Await(self, n):
        return self.ev(n.value)

    # comprehensions
    def e_ListComp(self, n):
        return self.alloc(self.comprehension("list", n.generators, lambda: self.v(n.elt)))

    def e_GeneratorExp(self, n):
        return self.comprehension("list", n.generators, lambda: self.v(n.elt))

    def e_SetComp(self, n):
        return self.alloc(self.comprehension("set", n.generators, lambda: self.v(n.elt)))

    def e_DictComp(self, n):
        return self.alloc(self.comprehension("dict", n.generators, lambda: mk("tuple", (self.v(n.key), self.v(n.value)))))

    def comprehension(self, kind, gens, elt):
        g = gens[0]
        S = self.v(g.iter)
        dom, lv, elem, filt = self.iter_elem(S)
        save = dict(self.st.env)
        savepc = self.st.pc
        self.loops.append(dom)
        outer = self.guards[-1]
        self.guards.append(b_and(outer, self.st.pc))
        self.st.pc = filt
        self.assign(g.target, elem, g.iter)
        c = filt
        for t in g.ifs:
            ct = self.cond(t)
            c = b_and(c, ct)
            self.st.pc = b_and(self.st.pc, ct)
        if len(gens) > 1:
            inner = self.comprehension(kind if kind != "set" else "set", gens[1:], elt)
            if inner.op in ("list", "setlit", "dict"):
                items = [mk("one", x if kind != "dict" else mk("tuple", x)) for x in inner.args[0]]
                body1 = mk("seq", tuple(items))
            else:
                body1 = mk("seq", (mk("many", inner),))
        else:
            body1 = X.one(elt()) if kind != "dict" else self.dict_one(elt())
        self.guards.pop()
        self.loops.pop()
        self.st.env = save
        self.st.pc = savepc
        body = X.constrain(body1, c) if c is not TRUE else body1
        body = ite(c, body, X.EMPTY_SEQ)
        return X.comp(kind, dom, body)

    def dict_one(self, t):
        return X.one(t)

    # ------------------------------------------------------------------ calls
    def can_inline(self, f):
        if f.is_abstract:
            return False
        if self.inline_depth >= self.e.max_depth:
            return False
        return not any(g is f for g in self.callstack)

    def call_args(self, n):
        pos, kw, star = [], {}, False
        for a in n.args:
            if isinstance(a, ast.Starred):
                t = self.v(a.value)
                if t.op in ("list", "tuple"):
                    pos += list(t.args[0])
                else:
                    pos.append(mk("star", t))
                    star = True
            else:
                pos.append(self.ev(a))
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                d = self.deref(v)
                items = dict_items(d)
                if items is not None:
                    for kk, vv in items:
                        kw[kk] = vv
                else:
                    kw["**"] = d
            else:
                kw[k.arg] = v
        return pos, kw

    def e_Call(self, n):
        fn = n.func
        # super()
        if isinstance(fn, ast.Name) and fn.id == "super" and fn.id not in self.st.env:
            return mk("superobj")
        if isinstance(fn, ast.Attribute):
            if fn.attr in MUTATORS:
                # d[k].append(v) / d.setdefault(k, []).append(v) on a fresh container d
                lv = self.lvalue(fn.value)
                if lv is not None:
                    pos, kw = self.call_args(n)
                    P = [self.deref(x) for x in pos]
                    b = X.t_idx(self.deref(lv.args[0]), lv.args[1])
                    r = self.builtin_mut(lv, b, fn.attr, P, kw, n)
                    if r is not None:
                        return r
            base = self.ev(fn.value)
            pos, kw = self.call_args(n)
            if fn.attr in ("remote", "options") and (base.op in ("glob", "bound", "fn")):
                if fn.attr == "options":
                    return base
                self.remote = True
                return self.call_value(base, pos, kw, n)
            if base.op == "superobj":
                return self.super_call(fn.attr, pos, kw, n)
            return self.method_call(base, fn.attr, pos, kw, n)
        f = self.ev(fn)
        pos, kw = self.call_args(n)
        if isinstance(fn, ast.Name) and fn.id == "zip":
            kw.pop("strict", None)
        return self.call_value(f, pos, kw, n)

    def lvalue(self, n):
        """idx(ref|idx(ref..), key) for a subscript of a fresh container, else None"""
        if isinstance(n, ast.Subscript) and not isinstance(n.slice, ast.Slice):
            o = self.lvalue(n.value)
            if o is None:
                if not isinstance(n.value, ast.Name):
                    return None
                o = self.st.env.get(n.value.id)
                if o is None or o.op != "ref":
                    return None
                h = self.st.heap.get(o)
                if h is None or hasref(h) or self.kindof(h) in ("list", "array") and h.op not in ("dict", "dictupd"):
                    return None
            return mk("idx", o, self.v(n.slice))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault" and len(n.args) == 2 and not n.keywords:
            o = self.lvalue(n.func.value)
            if o is None and isinstance(n.func.value, ast.Name):
                o = self.st.env.get(n.func.value.id)
                if o is None or o.op != "ref" or hasref(self.st.heap.get(o, UNDEF)):
                    return None
            if o is None:
                return None
            k, d = self.v(n.args[0]), self.v(n.args[1])
            if not (d.op in ("list", "setlit", "dict") and not d.args[0]):
                return None
            self.mutate(o, lambda old: setdef(old, k, d), n, "setdefault", k, d)
            return mk("idx", o, k)
        return None

    def super_call(self, name, pos, kw, n):
        fr = self.stack[-1]
        owner = fr.func.cls
        c = fr.cls or owner
        f = self.p.find(c, name, after=owner)
        me = self.st.env.get(fr.func.params[0]) if fr.func.params else mk("self")
        if f is None:
            if name == "__init__":
                self.emit("call", mk("call", mk("meth", mk("superobj"), name), tuple(self.deref(x) for x in pos), kwt(kw, self.deref)), node=n)
                return NONE
            t = mk("call", mk("meth", mk("superobj"), name), tuple(self.deref(x) for x in pos), kwt(kw, self.deref))
            self.emit("call", t, node=n)
            # parent (external) as_dict/copy returns a fresh mapping
            return self.alloc(t) if name in ("as_dict", "copy", "to_dict") else t
        bound = self.bind(f, pos, kw, skip_self=True)
        if bound is None or not self.can_inline(f):
            return self.opaque_call(mk("meth", mk("superobj"), name), pos, kw, n)
        return self.inline(f, c, me, bound, n)

    def bind(self, f, pos, kw, skip_self):
        """-> dict name -> term (defaults filled), or None when not statically bindable."""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if skip_self and names:
            names = names[1:]
        if any(p.op == "star" for p in pos) or ("**" in kw and not a.kwarg):
            return None
        out = {}
        if len(pos) > len(names) and not a.vararg:
            return None
        for nme, v in zip(names, pos):
            out[nme] = v
        if a.vararg:
            out["*" + a.vararg.arg] = mk("list", tuple(self.deref(x) for x in pos[len(names):]))
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return None
        if a.kwarg:
            if "**" in extra:
                out["**" + a.kwarg.arg] = extra.pop("**") if len(extra) == 1 else mk("kwmix", kwt(extra, self.deref))
            else:
                d = mk("dict", ())
                for k, v in extra.items():
                    d = upd(d, const(k), self.deref(v))
                out["**" + a.kwarg.arg] = d
        alln = [x.arg for x in a.posonlyargs + a.args]
        defs = dict(zip(alln[len(alln) - len(a.defaults):], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for nme in names + kwonly:
            if nme not in out:
                if nme in defs:
                    out[nme] = self.default_value(defs[nme], f.mod)
                else:
                    return None
        return out

    def default_value(self, node, mod):
        save, sst = self.stack, self.st
        self.stack = [Frame(None, None, mod)]
        self.st = State()
        try:
            return self.deref(self.ev(node))
        finally:
            self.stack, self.st = save, sst

    def inline(self, f, cls, me, bound, n):
        fr = Frame(f, cls, f.mod)
        st = self.st
        caller_env = st.env
        env = {}
        ps = f.params
        i = 0
        if f.cls is not None and not f.is_static and ps:
            env[ps[0]] = me
            i = 1
        for k, v in bound.items():
            env[k.lstrip("*")] = v
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg in env and x.arg in bound:
                vv = env[x.arg]
                if vv not in self.e.types:
                    self._note_type(vv, x.annotation, f.mod)
        self.stack.append(fr)
        self.callstack.append(f)
        self.inline_depth += 1
        pc0 = st.pc
        self.guards.append(b_and(self.guards[-1], pc0))
        self.st = State(env, st.heap, st.store, st.ov, TRUE)
        if f.is_gen:
            fr.yields = self.alloc(mk("list", ()))
        sink = getattr(self, "_raise_sink", [])
        self._raise_sink = []
        mark = len(self.events)
        out = self.block(f.node.body)
        self._raise_sink = sink
        val, rpc, end = self._finish(fr, out)
        # 'return' events of inlined bodies are not returns of the analysed function
        self.events[mark:] = [e for e in self.events[mark:] if e.kind not in ("return", "yield", "yieldfrom")]
        self.guards.pop()
        self.inline_depth -= 1
        self.callstack.pop()
        self.stack.pop()
        rz = FALSE
        for p, x in out.raises:
            rz = b_or(rz, p)
            sink.append((b_and(pc0, p), x))
        self.st = State(caller_env, end.heap or st.heap, end.store, end.ov, b_and(pc0, b_not(rz)) if rz is not TRUE else FALSE)
        return val

    def call_value(self, f, pos, kw, n):
        remote = getattr(self, "remote", False)
        self.remote = False
        if f.op == "fn":
            return self.call_closure(f, pos, kw, n)
        if f.op == "bound":
            return self.method_call(f.args[0], f.args[1], pos, kw, n)
        if f.op == "clsobj":
            return self.construct(f.args[0], pos, kw, n)
        if f.op == "ite" and X.n_leaves(f) <= 4:
            res = []
            st0 = self.st
            for g, leaf in X.leaves(f):
                self.st = st0.copy()
                self.st.pc = b_and(st0.pc, g)
                v = self.call_value(leaf, list(pos), dict(kw), n)
                res.append((g, v, self.st))
            val, stt = res[-1][1], res[-1][2]
            for g, v, s2 in reversed(res[:-1]):
                val = ite(g, v, val)
                stt = merge(g, s2, stt)
            stt.pc = st0.pc
            self.st = stt
            return val
        if f.op == "glob":
            d = f.args[0]
            r = self.p.resolve_abs(d) if d.startswith("rxn_network") else None
            if isinstance(r, Func) and r.cls is None:
                b = self.bind(r, pos, kw, skip_self=False)
                if b is not None and not self.e.is_opaque(r) and self.can_inline(r):
                    return self.inline(r, None, None, b, n)
                if b is not None:
                    return self.opaque_bound(f, b, n)
                return self.opaque_call(f, pos, kw, n)
            return self.ext_call(d, pos, kw, n)
        return self.opaque_call(f, pos, kw, n)

    def opaque_bound(self, f, b, n):
        t = mk("call", f, (), tuple(sorted((k, self.deref(self.fnvalue(v))) for k, v in b.items())))
        self.emit("call", t, node=n)
        return t

    def opaque_call(self, f, pos, kw, n):
        pos = [self.fnvalue(x) for x in pos]
        kw = {k: self.fnvalue(x) for k, x in kw.items()}
        t = mk("call", f, tuple(self.deref(x) for x in pos), kwt(kw, self.deref))
        self.emit("call", t, node=n)
        return t

    def call_closure(self, f, pos, kw, n):
        node, st, fr = CLOSURES[f]
        if self.inline_depth > 8 or any(g is f for g in self.callstack):
            return self.opaque_call(f, pos, kw, n)
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(st.env)
        if fr is self.stack[-1]:
            env.update(self.st.env)
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for nme in names + [x.arg for x in a.kwonlyargs]:
            if nme in defs:
                env[nme] = self.v(defs[nme])
        for nme, v in zip(names, pos):
            env[nme] = v
        if a.vararg:
            env[a.vararg.arg] = mk("list", tuple(self.deref(x) for x in pos[len(names):]))
        for k, v in kw.items():
            env[k] = v
        caller = self.st
        pc0 = caller.pc
        self.st = State(env, caller.heap, caller.store, caller.ov, TRUE)
        self.callstack.append(f)
        self.inline_depth += 1
        fr2 = Frame(fr.func, fr.cls, fr.mod)
        self.stack.append(fr2)
        self.guards.append(b_and(self.guards[-1], pc0))
        if isinstance(node, ast.Lambda):
            val = self.ev(node.body)
            end = self.st
            rz = FALSE
        else:
            sink = getattr(self, "_raise_sink", [])
            self._raise_sink = []
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
                fr2.yields = self.alloc(mk("list", ()))
            mark = len(self.events)
            out = self.block(node.body)
            self._raise_sink = sink
            val, _, end = self._finish(fr2, out)
            self.events[mark:] = [e for e in self.events[mark:] if e.kind not in ("return", "yield", "yieldfrom")]
            rz = FALSE
            for p, x in out.raises:
                rz = b_or(rz, p)
                sink.append((b_and(pc0, p), x))
        self.guards.pop()
        self.stack.pop()
        self.inline_depth -= 1
        self.callstack.pop()
        self.st = State(caller.env, end.heap, end.store, end.ov, b_and(pc0, b_not(rz)))
        return val

    def fnvalue(self, t):
        """a function passed on to code that is not looked into: what it computes counts, not which closure it is"""
        if t.op != "fn" or t not in CLOSURES:
            return t
        a = CLOSURES[t][0].args
        if a.vararg or a.kwarg or any(g is t for g in self.callstack):
            return t
        return self.as_lambda(t, len(a.posonlyargs) + len(a.args) - len(a.defaults))

    def as_lambda(self, t, nargs=1):
        """canonical term for a function value: body over lam parameters"""
        if t.op == "fn":
            return mk("lambda", nargs, self.deref(self.call_closure(t, [mk("lam", i) for i in range(nargs)], {}, None)))
        return t

    def construct(self, cname, pos, kw, n):
        c = self.p.by_cls[cname]
        if cname == "Composition" and len(pos) == 1 and not kw:
            return self.deref(pos[0])
        ps, haskw, hasvar = self.e.ctor_params(c)
        flds = {}
        if ps is None:
            flds = {f"#{i}": self.deref(v) for i, v in enumerate(pos)}
            flds.update({k: self.deref(v) for k, v in kw.items()})
        else:
            names = [x for x, _, _ in ps]
            star = [p for p in pos if p.op == "star"]
            if star:
                flds["*"] = star[0]
            else:
                for nme, v in zip(names, pos):
                    flds[nme] = self.deref(v)
            for k, v in kw.items():
                flds[k] = self.deref(v)
            if not star and "**" not in kw:
                for nme, d, mod in ps:
                    if nme not in flds and d is not None:
                        if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] in ("field", "Field"):
                            kws = {q.arg: q.value for q in d.keywords}
                            if "default" in kws:
                                flds[nme] = self.default_value(kws["default"], mod)
                            elif "default_factory" in kws:
                                df = kws["default_factory"]
                                if isinstance(df, ast.Name) and df.id in ("list", "dict", "set"):
                                    flds[nme] = {"list": mk("list", ()), "dict": mk("dict", ()), "set": mk("setlit", ())}[df.id]
                                else:
                                    flds[nme] = mk("call", self.default_value(df, mod), (), ()) if not isinstance(df, ast.Lambda) else mk("deflam")
                            continue
                        flds[nme] = self.default_value(d, mod)
        t = mk("new", cname, tuple(sorted(flds.items())))
        self.emit("new", t, node=n)
        return self.alloc(t)

    def method_call(self, base, name, pos, kw, n):
        if base.op == "ite":
            if X.n_leaves(base) <= 4 and name not in MUTATORS:
                res = []
                st0 = self.st
                for g, leaf in X.leaves(base):
                    self.st = st0.copy()
                    self.st.pc = b_and(st0.pc, g)
                    v = self.method_call(leaf, name, list(pos), dict(kw), n)
                    res.append((g, v, self.st))
                val, stt = res[-1][1], res[-1][2]
                for g, v, s2 in reversed(res[:-1]):
                    val = ite(g, v, val)
                    stt = merge(g, s2, stt)
                stt.pc = st0.pc
                self.st = stt
                return val
        if base.op == "glob":
            d = base.args[0] + "." + name
            r = self.p.resolve_abs(d) if d.startswith("rxn_network") else d
            if isinstance(r, str):
                if not d.startswith("rxn_network") and not (name == "get" and settings(base)):
                    return self.ext_call(d, pos, kw, n)
            elif isinstance(r, Cls):
                return self.construct(r.name, pos, kw, n)
            elif isinstance(r, Func):
                return self.call_value(mk("glob", r.qual), pos, kw, n)
            if base.args[0].split(".")[-1] in ("logger", "warnings", "logging"):
                return NONE
        if base.op == "clsobj":
            c = self.p.by_cls.get(base.args[0])
            f = self.p.find(c, name) if c else None
            if f is not None:
                if f.is_class:
                    b = self.bind(f, pos, kw, skip_self=True)
                    if b is not None and not self.e.is_opaque(f) and self.can_inline(f):
                        return self.inline(f, c, base, b, n)
                    if b is not None:
                        return self.opaque_bound(mk("meth", base, name), b, n)
                elif f.is_static:
                    b = self.bind(f, pos, kw, skip_self=False)
                    if b is not None and not self.e.is_opaque(f) and self.can_inline(f):
                        return self.inline(f, c, None, b, n)
                    if b is not None:
                        return self.opaque_bound(mk("meth", mk("static"), name), b, n)
                elif pos:
                    # unbound call Base.method(self, ...)
                    b = self.bind(f, pos[1:], kw, skip_self=True)
                    if b is not None and self.can_inline(f):
                        return self.inline(f, self.e.types.get(pos[0]) or c, pos[0], b, n)
            return self.opaque_call(mk("meth", base, name), pos, kw, n)
        # typed receivers
        cls = self.e.types.get(base)
        h = self.st.heap.get(base) if base.op == "ref" else base
        if cls is None and h is not None and h.op == "new":
            cls = self.p.by_cls.get(h.args[0])
        if cls is not None:
            f = self.p.find(cls, name)
            if f is not None and f.is_prop:
                return self.call_value(self.getattr_(base, name, n), pos, kw, n)
            if f is not None:
                if f.is_static:
                    b = self.bind(f, pos, kw, skip_self=False)
                    me = None
                else:
                    b = self.bind(f, pos, kw, skip_self=True)
                    me = mk("clsobj", cls.name) if f.is_class else base
                if b is not None and not self.e.is_opaque(f) and self.can_inline(f):
                    return self.inline(f, cls, me, b, n)
                if b is not None:
                    o = mk("static") if f.is_static else (mk("clsobj", cls.name) if f.is_class else self.deref(base))
                    return self.opaque_bound(mk("meth", o, name), b, n)
            # attribute holding a callable
        r = self.builtin_method(base, name, pos, kw, n)
        if r is not None:
            return r
        if base.op == "self" and cls is not None:
            at = self.getattr_(base, name, n)
            if at.op == "fn":
                return self.call_closure(at, pos, kw, n)
        # repo method on untyped receiver: bind by name when all repo definitions agree
        fs = self.e.meth_index.get(name, [])
        fs = [f for f in fs if not f.is_prop]
        if fs and not name.startswith("__"):
            bs = []
            for f in fs:
                b = self.bind(f, pos, kw, skip_self=not f.is_static)
                bs.append(None if b is None else tuple(sorted((k, self.deref(v)) for k, v in b.items())))
            ks = {b for b in bs if b is not None}
            if len(ks) == 1 and len({tuple(f.params) for f in fs}) == 1:
                t = mk("call", mk("meth", self.deref(base), name), (), ks.pop())
                self.emit("call", t, node=n)
                return t
        return self.opaque_call(mk("meth", self.deref(base), name), pos, kw, n)

    def builtin_method(self, base, name, pos, kw, n):
        b = self.deref(base)
        P = [self.deref(x) for x in pos]
        if name in ("copy", "tolist", "__copy__") and not P and not kw:
            return self.alloc(b)
        if name == "astype" or name == "__iter__" and not P:
            return b
        if name == "__len__" and not P:
            return self.ext_call("len", [b], {}, n)
        if name == "items" and not P:
            return mk("items", b)
        if name == "keys" and not P:
            return mk("keys", b)
        if name == "values" and not P:
            return mk("values", b)
        if name == "get" and 1 <= len(P) <= 2 and self.kindof(b) in ("dict", None) and not kw:
            d = P[1] if len(P) > 1 else NONE
            if b.op not in ("glob", "self", "meth", "clsobj", "module") or settings(b):
                cin = X.c_in(P[0], b)
                got = X.t_idx(b, P[0])
                if base.op == "ref" and got.op == "idx" and cin is not FALSE:
                    got = self.subscript(base, P[0])  # an element shared with the container
                return ite(cin, got, d) if X.n_leaves(cin) < 16 else None
        if name == "join" and len(P) == 1:
            return mk("join", b, P[0])
        if name in ("sum",) and not P and not kw:
            return X.t_sum(b)
        if name in ("any", "all") and not P and not kw:
            return self.ext_call(name, [b], {}, n)
        if name in ("issubset", "issuperset", "isdisjoint") and len(P) == 1:
            if name == "issubset":
                return X.c_subset(b, P[0])
            if name == "issuperset":
                return X.c_subset(P[0], b)
            return b_not(X.truthy(X.setop("inter", b, P[0])))
        if name in ("union", "intersection", "difference", "symmetric_difference") and not kw:
            k = {"union": "union", "intersection": "inter", "difference": "diff", "symmetric_difference": "xor"}[name]
            if len(P) == 1 and P[0].op != "star":
                return X.lift(lambda x, y: X.setop(k, x, y), b, P[0])
            r = mk("call", mk("glob", "set." + name), (b, *P), ())
            return r
        if name in ("lower", "upper", "strip", "title", "capitalize") and base.op == "const" and isinstance(base.args[0], str) and not pos and not kw:
            return const(getattr(base.args[0], name)())
        if name == "format" or name == "strip":
            return None
        if name in MUTATORS:
            # mutators only on things not known to be repo objects with such a method
            return self.builtin_mut(base, b, name, P, kw, n, pos[0] if len(pos) == 1 and pos[0].op == "ref" else None)
        if name == "transpose" and not P:
            return mk("attr", b, "T")
        return None

    def builtin_mut(self, base, b, name, P, kw, n, raw=None):
        k = self.kindof(b)
        if name in ("append",) and len(P) == 1:
            x = P[0] if raw is None or base.op != "ref" or base is raw else raw
            self.mutate(base, lambda old: X.concat([old, mk("list", (x,))]), n, name, P[0])
        elif name == "extend" and len(P) == 1:
            self.mutate(base, lambda old: X.concat([old, P[0]]), n, name, P[0])
        elif name == "add" and len(P) == 1:
            self.mutate(base, lambda old: X.setop("union", old, mk("setlit", (P[0],))), n, name, P[0])
        elif name == "update" and (len(P) == 1 or kw):
            d = P[0] if P else mk("dict", ())
            for kk, vv in kw.items():
                if kk != "**":
                    d = upd(d, const(kk), self.deref(vv))
                else:
                    d = dict_merge(d, self.deref(vv))
            if k == "set" or (k is None and self.kindof(d) in ("set", "list")):
                self.mutate(base, lambda old: X.setop("union", old, d), n, name, d)
            else:
                self.mutate(base, lambda old: dict_merge(old, d), n, name, d)
        elif name in ("remove", "discard", "difference_update") and len(P) == 1:
            if name == "remove":
                self.emit("remove", b, P[0], X.c_in(P[0], b), node=n)
            self.mutate(base, lambda old: mk("without", old, P[0] if name != "difference_update" else mk("all", P[0])), n, name, P[0])
        elif name == "sort":
            key = self.as_lambda(kw["key"]) if "key" in kw else NONE
            rev = self.deref(kw["reverse"]) if "reverse" in kw else FALSE
            self.mutate(base, lambda old: t_sorted(old, key, rev), n, name)
        elif name == "reverse" and (k == "list" or base.op == "ref") and not P:
            self.mutate(base, lambda old: mk("reversed", old), n, name)
        elif name == "reverse":
            return None
        elif name == "pop":
            r = X.t_idx(b, P[0]) if P else mk("idx", b, const(-1))
            if len(P) == 2:
                r = ite(X.c_in(P[0], b), X.t_idx(b, P[0]), P[1])
            self.mutate(base, lambda old: mk("without", old, P[0] if P else NONE), n, name, *P)
            return r
        elif name == "setdefault" and P:
            r = X.t_idx(b, P[0])
            self.mutate(base, lambda old: mk("setdef", old, *P), n, name, *P)
            return mk("idx", base, P[0]) if base.op == "ref" else r
        elif name == "clear":
            self.mutate(base, lambda old: mk("cleared"), n, name)
        elif name == "insert":
            self.mutate(base, lambda old: mk("inserted", old, *P), n, name, *P)
        else:
            self.mutate(base, lambda old: mk("mutated", old, name, tuple(P)), n, name, *P)
        return NONE

    # external / builtin functions
    def ext_call(self, d, pos, kw, n):
        name = d[9:] if d.startswith("builtins.") else d
        name = ALIASES.get(name, name)
        if name in NEW_ARRAY and not self.in_new_array:
            self.in_new_array = True
            try:
                r = self.ext_call(d, pos, kw, n)
            finally:
                self.in_new_array = False
            return r if r.op != "call" else self.alloc(r)
        self.in_new_array = False
        P = [self.deref(x) for x in pos]
        K = {k: self.deref(v) for k, v in kw.items()}
        star = any(p.op == "star" for p in P)
        if name.split(".")[-1] in ("tqdm",) and P:
            return P[0]
        if name in ("print", "warnings.warn", "warnings.filterwarnings"):
            return NONE
        if name == "copy.deepcopy" and P:
            self.emit("call", mk("call", mk("glob", name), (P[0],), ()), node=n)
        if name in IDENT and len(P) == 1:
            if name == "float" and P[0].op == "const" and isinstance(P[0].args[0], str):
                return mk("const", "float:" + P[0].args[0])
            if name in ("list", "tuple") and P[0].op in ("keys",):
                P[0] = P[0].args[0]
            return self.alloc(P[0]) if name in FRESH_IDENT else (P[0] if name != "tuple" else P[0])
        if name in ("list", "tuple") and not P:
            return self.alloc(mk("list", ()))
        if name in ("set", "frozenset"):
            return self.alloc(X.to_set(P[0]) if P else mk("setlit", ()))
        if name == "dict":
            cur = P[0] if P else mk("dict", ())
            if cur.op == "comp" and cur.args[0] == "list":
                cur = X.comp("dict", *cur.args[1:])
            elif cur.op in ("zip", "list", "items"):
                if cur.op == "items":
                    cur = cur.args[0]
                elif cur.op == "zip" and len(cur.args[0]) == 2:
                    dm, lv, e, c = self.iter_elem(cur)
                    if c is TRUE and e.op == "tuple":
                        cur = X.comp("dict", dm, X.one(e))
                else:
                    cur = mk("dictof", cur)
            for k, v in K.items():
                cur = dict_merge(cur, v) if k == "**" else upd(cur, const(k), v)
            return self.alloc(cur)
        if name in ("collections.OrderedDict", "collections.defaultdict"):
            return self.alloc(mk("dict", ()) if len(P) < 1 or name.endswith("defaultdict") else P[0])
        if name == "len" and len(P) == 1:
            return X.t_len(P[0])
        if name == "sum" and P:
            st = K.get("start") or (P[1] if len(P) > 1 else None)
            if "axis" not in K:
                return X.t_sum(P[0], st)
        if name == "abs" and len(P) == 1:
            return X.t_abs(P[0])
        if name in ("numpy.multiply", "numpy.add", "numpy.subtract", "numpy.divide", "numpy.negative", "operator.mul", "operator.add") and not K:
            o = name.split(".")[-1]
            if o in ("multiply", "mul"):
                return X.t_mul(*P)
            if o == "add":
                return X.t_add(*P)
            if o == "subtract":
                return X.t_sub(*P)
            if o == "divide":
                return X.t_div(*P)
            return X.t_neg(P[0])
        if name in ("any", "all") and len(P) == 1 and not K:
            s = P[0]
            if s.op == "comp":
                kind, dom, body = s.args
                if all(len(l.args[0]) <= 1 and all(p.op == "one" for p in l.args[0]) for l in X.leaf_values(body)):
                    if name == "any":
                        c = X.lift_bool2(body, lambda l: X.truthy(l.args[0][0].args[0]) if l.args[0] else FALSE)
                        return X.exists(dom, c)
                    c = X.lift_bool2(body, lambda l: b_not(X.truthy(l.args[0][0].args[0])) if l.args[0] else FALSE)
                    return b_not(X.exists(dom, c))
            if s.op in ("list", "tuple"):
                ts = [X.truthy(x) for x in s.args[0]]
                return b_or(*ts) if name == "any" else b_and(*ts)
            if s.op == "ite" and all(x in (TRUE, FALSE) for x in X.leaf_values(s)):
                return s
            e = mk("elem", X.dom_canon(s), self.level(X.dom_canon(s)))
            if name == "any":
                return X.exists(X.dom_canon(s), X.truthy(e))
            return b_not(X.exists(X.dom_canon(s), b_not(X.truthy(e))))
        if name == "sorted" and P:
            key = self.as_lambda(kw["key"]) if "key" in kw else NONE
            return self.alloc(t_sorted(P[0], key, K.get("reverse", FALSE)))
        if name == "reversed" and P:
            return mk("reversed", P[0])
        if name == "range":
            if len(P) == 1:
                return mk("range", const(0), P[0], const(1))
            if len(P) == 2:
                return mk("range", P[0], P[1], const(1))
            return mk("range", *P)
        if name == "enumerate" and P:
            return mk("enumerate", P[0], K.get("start") or (P[1] if len(P) > 1 else const(0)))
        if name == "zip" and P and not star:
            return mk("zip", tuple(P))
        if name == "map" and len(pos) >= 2:
            f = pos[0]
            src = P[1] if len(P) == 2 else mk("zip", tuple(P[1:]))
            dom, lv, elem, filt = self.iter_elem(src)
            self.loops.append(dom)
            v = self.deref(self.call_value(f, [elem] if len(P) == 2 else list(elem.args[0]), {}, n))
            self.loops.pop()
            return X.comp("list", dom, ite(filt, X.one(v), X.EMPTY_SEQ))
        if name == "filter" and len(pos) == 2:
            dom, lv, elem, filt = self.iter_elem(P[1])
            self.loops.append(dom)
            c = self.truth(self.call_value(pos[0], [elem], {}, n)) if P[0] is not NONE else X.truthy(elem)
            self.loops.pop()
            return X.comp("list", dom, ite(b_and(filt, c), X.one(elem), X.EMPTY_SEQ))
        if name == "isinstance" and len(P) == 2:
            cs = P[1].args[0] if P[1].op in ("tuple", "list") else (P[1],)
            return X.map_leaves(P[0], lambda x: b_or(*[self.isinst(x, c) for c in cs]))
        if name == "hasattr" and len(P) == 2:
            return X.atom(mk("hasattr", P[0], P[1]))
        if name == "getattr" and len(P) >= 2:
            def ga(k):
                if k.op == "const" and isinstance(k.args[0], str):
                    return self.getattr_(pos[0], k.args[0], n)
                return mk("getattr", P[0], k)
            r = X.lift(ga, P[1])
            if len(P) == 3:
                return ite(X.atom(mk("hasattr", P[0], P[1])), r, P[2])
            return r
        if name == "setattr" and len(P) == 3 and P[1].op == "const":
            self.setattr_(pos[0], P[1].args[0], pos[2], n)
            return NONE
        if name == "bool" and len(P) == 1:
            return X.truthy(P[0])
        if name == "str" and len(P) == 1:
            return P[0] if X.kind_of(P[0]) == "str" else X.lift(lambda x: mk("strof", x), P[0])
        if name == "type" and len(P) == 1:
            c = self.e.types.get(P[0])
            if c is not None:
                return mk("clsobj", c.name)
            return mk("typeof", P[0])
        if name == "next" and P:
            s = P[0]
            if s.op == "comp" and s.args[0] == "list":
                kind, dom, body = s.args
                if all(len(l.args[0]) <= 1 for l in X.leaf_values(body)):
                    c = X.body_pred(body)
                    elt = X.map_leaves(body, lambda l: l.args[0][0].args[0] if l.args[0] else mk("nothing"))
                    val = mk("first", dom, c, X.constrain(elt, c))
                    if len(P) == 2:
                        return ite(exists_c(dom, c), val, P[1])
                    return val
        if name in ("min", "max"):
            if len(P) == 1 and not K:
                return mk("call", mk("glob", name), (P[0],), ())
            if len(P) > 1 and not K and not star:
                return X.lift(lambda *xs: mk("call", mk("glob", name), tuple(sorted(xs, key=lambda t: t.dg)), ()), *P) if len(P) <= 3 else mk("call", mk("glob", name), tuple(sorted(P, key=lambda t: t.dg)), ())
        if name == "itertools.chain" and not star and P:
            return X.concat(P)
        if name == "itertools.chain.from_iterable" and len(P) == 1 and P[0].op == "comp" and P[0].args[0] == "list":
            kind, dom, body = P[0].args
            def fl(l):
                out = []
                for p in l.args[0]:
                    if p.op == "one":
                        q = p.args[0]
                        out += [mk("one", z) for z in q.args[0]] if q.op == "list" else [mk("many", q)]
                    else:
                        return None
                return mk("seq", tuple(out))
            if all(p.op == "one" for l in X.leaf_values(body) for p in l.args[0]):
                return X.comp("list", dom, X.map_leaves(body, fl))
        if name == "itertools.count":
            return mk("count", P[0] if P else const(0))
        if name == "math.exp" or name == "math.log":
            return X.lift(lambda x: mk("call", mk("glob", name), (x,), ()), *P) if len(P) == 1 else mk("call", mk("glob", name), tuple(P), ())
        if name in ("numpy.isclose", "math.isclose") and len(P) == 2:
            a, b = sorted(P, key=lambda t: t.dg)
            return X.atom(mk("isclose", a, b, kwt(K)))
        if name == "numpy.allclose" and len(P) == 2:
            a, b = sorted(P, key=lambda t: t.dg)
            return X.atom(mk("isclose", a, b, kwt(K)))
        if name in ("numpy.logical_and", "numpy.logical_or") and len(P) == 2 and all(isbool(x) for x in P):
            return b_and(*P) if name.endswith("and") else b_or(*P)
        if name == "numpy.logical_not" and isbool(P[0]):
            return b_not(P[0])
        fnt = mk("glob", name)
        pos2 = []
        for x in pos:
            pos2.append(self.fnvalue(x))
        kw2 = {k: self.fnvalue(v) for k, v in kw.items()}
        t = mk("call", fnt, tuple(self.deref(x) for x in pos2), kwt(kw2, self.deref))
        self.emit("call", t, node=n)
        return t

    def isinst(self, x, c):
        if x.op == "new" and c.op == "clsobj":
            xc = self.p.by_cls.get(x.args[0])
            if xc is not None:
                return TRUE if self.p.is_sub(xc, c.args[0]) else FALSE
        return X.atom(mk("isinst", x, c))


CLOSURES: dict = {}


def _lift_bool2(t, f):
    if t.op == "ite":
        return ite(X.atom(t.args[0]), _lift_bool2(t.args[1], f), _lift_bool2(t.args[2], f))
    return f(t)


X.lift_bool2 = _lift_bool2


def t_sorted(x, key, rev):
    def f(v):
        if v.op == "sorted":
            v = v.args[0]
        if v.op == "toset" and False:
            return mk("sorted", v, key, rev)
        return mk("sorted", v, key, rev)

    return X.lift(f, x)


def isbool(t):
    return all(x in (TRUE, FALSE) for x in X.leaf_values(t))


def exists_c(dom, c):
    if c is FALSE:
        return FALSE
    if dom.op == "until" :
        d, b = dom.args
        if b is c or b_and(c, b_not(b)) is FALSE:
            return exists_c(d, c)
    return X.exists(dom, c)


_HASREF: dict = {}


def hasref(t):
    r = _HASREF.get(t)
    if r is None:
        r = t.op == "ref" or any(hasref(c) for c in X.children(t))
        _HASREF[t] = r
    return r


def nonfresh(t):
    """term denotes an object that existed before the analysed call"""
    if t.op in ("self", "param", "glob", "clsobj", "elem", "lam"):
        return True
    if t.op in ("attr", "idx", "values", "items", "keys"):
        return nonfresh(t.args[0])
    if t.op == "ite":
        return any(nonfresh(x) for x in X.leaf_values(t))
    return False


def rename_dd(t, m):
    if t.op != "ite" or not m:
        return t
    at = m.get(t.args[0], t.args[0])
    return ite(X.atom(at), rename_dd(t.args[1], m), rename_dd(t.args[2], m))


def group_append_leaf(v, k):
    return group_append(v, k)


def keyed(x, l, k):
    return x is l or (x.op == "kappend" and x.args[0] is l and x.args[1] is k)


def bool_shape(v, l):
    return X.lift_bool(v, lambda x: FALSE if x is l else TRUE)


def fresh_value(k, dom, lid, pre):
    """a value computed anew in every iteration (not a part of something that outlives it): changing it in place does
    not carry over to the next iteration"""
    if not isinstance(k, T) or k in pre.ov:
        return False
    r = k
    while r.op in ("idx", "attr"):
        r = r.args[0]
    if r.op in X.MARK_OPS or r.op == "global":
        return False
    return any((t.op in ("elem", "pos") and t.args[0] is dom) or (t.op == "lv" and t.args[1] is lid) for t in X.marks(r))


def root_of(o):
    while o.op == "idx":
        o = o.args[0]
    return o


def setdef(old, k, d):
    """old.setdefault(k, d)"""
    return X.lift(lambda h: ite(X.c_in(k, h), h, upd(h, k, d)), old)


def elem_upd(h, k, f, app):
    inner = X.t_idx(h, k)
    if app is not None and inner.op == "idx" and inner.args[0] is h:
        return kappend(h, k, app)
    return upd(h, k, f(inner))


def kappend(h, k, app):
    if h.op == "kappend" and k.op == "const" and h.args[1].op == "const" and repr(k.args[0]) < repr(h.args[1].args[0]):
        return mk("kappend", kappend(h.args[0], k, app), h.args[1], h.args[2])
    return mk("kappend", h, k, app)


def is_single(v, app):
    """v == what appending `app` to an empty container gives"""
    kind, x = app.args[0].args[0], app.args[1]
    if app.op == "kap1":
        return v is mk("setlit" if kind == "set" else "list", (x,))
    return v is x


def group_append(r, k):
    """`if k not in d: d[k] = []` followed by an append is one group-append"""
    if r.op != "ite":
        return r
    for at in X.dd_atoms(r):
        if at.op == "in" and at.args[0] is k:
            a, b = X.cof(r, at, 1), X.cof(r, at, 0)
            if a.op == "kappend" and a.args[1] is k and b.op == "dictupd" and b.args[1] is k and b.args[0] is a.args[0] and (at.args[1] is a.args[0]):
                if is_single(b.args[2], a.args[2]):
                    return a
    return r


def known_key_append(ii, idom, body):
    """appending inside a loop to the list stored under one key just assigned before the loop"""
    ks = {p.args[0] if p.op == "kap" else None for b in X.leaf_values(body) for p in b.args[0]}
    if len(ks) != 1 or None in ks:
        return None
    k = ks.pop()
    kinds = {p.args[1].args[0].args[0] for b in X.leaf_values(body) for p in b.args[0]}
    if len(kinds) != 1:
        return None
    cur = X.t_idx(ii, k)
    if cur.op not in ("list", "concat", "comp", "setlit", "setop"):
        return None
    kind = kinds.pop()

    def conv(b):
        return mk("seq", tuple(mk("one" if p.args[1].op == "kap1" else "many", p.args[1].args[1]) for p in b.args[0]))

    c = X.comp(kind, idom, X.map_leaves(body, conv))
    return upd(ii, k, X.concat([cur, c]) if kind == "list" else X.setop("union", cur, c))


def upd(d, k, v):
    def f(x):
        if v is X.t_idx(x, k) and v.op == "idx":
            return x
        if x.op == "dict":
            items = list(x.args[0])
            for i, (kk, _) in enumerate(items):
                if kk is k:
                    items[i] = (k, v)
                    return mk("dict", tuple(items))
            if k.op == "const" and all(kk.op == "const" for kk, _ in items):
                items.append((k, v))
                items.sort(key=lambda kv: repr(kv[0].args[0]))
                return mk("dict", tuple(items))
            if all(kk.op != "star" for kk, _ in items):
                return mk("dict", tuple(items + [(k, v)]))
        if x.op == "dictupd":
            base, kk, vv = x.args
            if kk is k:
                return mk("dictupd", base, k, v)
            if kk.op == "const" and k.op == "const" and repr(k.args[0]) < repr(kk.args[0]):
                return mk("dictupd", f(base), kk, vv)
        return mk("dictupd", x, k, v)

    return X.lift(f, d)


def dict_merge(a, b):
    def f(x, y):
        if y.op == "dict":
            r = x
            for k, v in y.args[0]:
                r = upd(r, k, v)
            return r
        if x.op == "dict" and not x.args[0]:
            return y
        if y.op == "dictupd" :
            return upd(f(x, y.args[0]), y.args[1], y.args[2])
        return mk("dictmerge", x, y)

    return X.lift(f, a, b)


def dict_items(d):
    """constant-key dict literal -> [(str, term)] else None"""
    if d.op == "dict" and all(k.op == "const" and isinstance(k.args[0], str) for k, _ in d.args[0]):
        return [(k.args[0], v) for k, v in d.args[0]]
    if d.op == "dictupd" and d.args[1].op == "const":
        b = dict_items(d.args[0])
        if b is None:
            b = [("**", d.args[0])]
        return [x for x in b if x[0] != d.args[1].args[0]] + [(d.args[1].args[0], d.args[2])]
    return None


def kwt(kw, f=lambda x: x):
    return tuple(sorted((k, f(v)) for k, v in kw.items()))


def relevel(t, dom, a, b):
    m = {mk("elem", dom, a): mk("elem", dom, b), mk("pos", dom, a): mk("pos", dom, b)}
    return X.subst(t, m)


def assigned_names(body):
    out = set()
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        st.extend(ast.iter_child_nodes(n))
    return out


Engine.ctor_depth = 0
