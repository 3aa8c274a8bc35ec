"""Program model of /repo/src/rxn_network: modules, imports, classes (MRO, members), functions."""

from __future__ import annotations

import ast
import os

REPO = os.environ.get("RXNSA_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "rxn_network"


class AnalysisBroken(Exception):
    """The analysed program no longer has the construct a rule is anchored in."""


class Func:
    def __init__(self, mod, node, cls=None):
        self.mod, self.node, self.cls = mod, node, cls
        self.name = node.name
        self.qual = f"{mod.name}.{cls.name + '.' if cls else ''}{node.name}"
        decs = [ast.unparse(d) for d in node.decorator_list]
        self.decs = decs
        heads = [d.split("(")[0].split(".")[-1] for d in decs]
        self.is_prop = any(h in ("property", "cached_property", "lazyproperty", "abstractproperty") for h in heads)
        self.is_cached = any(h in ("cached_property", "lru_cache", "cache", "lazyproperty") for h in heads)
        self.is_static = "staticmethod" in heads
        self.is_class = "classmethod" in heads
        self.is_abstract = "abstractmethod" in heads
        self.is_remote = any(d.startswith("ray.remote") for d in decs)
        self.is_job = "job" in heads
        self.is_setter = any(d.endswith(".setter") for d in decs)
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def line(self):
        return self.node.lineno

    @property
    def file(self):
        return self.mod.rel

    def __repr__(self):
        return f"<Func {self.qual}>"


def walk_own(fn):
    """Walk a function body without entering nested functions/classes/lambdas."""
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(n))


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.qual = f"{mod.name}.{node.name}"
        self.members: dict[str, Func] = {}
        self.setters: dict[str, Func] = {}
        self.attrs: dict[str, ast.AST] = {}
        self.anns: dict[str, ast.AST] = {}
        self.base_exprs = node.bases
        self.bases: list = []  # Cls or dotted str
        self.is_dataclass = any("dataclass" in ast.unparse(d) for d in node.decorator_list)
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(mod, s, self)
                if f.is_setter:
                    self.setters[f.name] = f
                else:
                    self.members[f.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.anns[s.target.id] = s.annotation
                if s.value is not None:
                    self.attrs[s.target.id] = s.value

    def __repr__(self):
        return f"<Cls {self.qual}>"


OVERRIDE: dict = {}  # module name -> source text (used only by the self-test tools)


class Module:
    def __init__(self, name, path, prog):
        self.name, self.path, self.prog = name, path, prog
        self.rel = os.path.relpath(path, REPO)
        if name in OVERRIDE:
            self.src = OVERRIDE[name]
        else:
            with open(path) as f:
                self.src = f.read()
        self.tree = ast.parse(self.src)
        self.imports: dict[str, str] = {}
        self.funcs: dict[str, Func] = {}
        self.classes: dict[str, Cls] = {}
        self.consts: dict[str, ast.AST] = {}
        self._collect(self.tree.body)

    def _collect(self, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.imports[a.asname or a.name] = f"{s.module}.{a.name}"
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = Func(self, s)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Cls(self, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value
            elif isinstance(s, ast.If):
                self._collect(s.body)
                self._collect(s.orelse)
            elif isinstance(s, ast.Try):
                self._collect(s.body)
                for h in s.handlers:
                    self._collect(h.body)
            elif isinstance(s, ast.With):
                self._collect(s.body)


class Program:
    def __init__(self, root=SRC):
        self.modules: dict[str, Module] = {}
        base = os.path.join(root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"no package at {base}")
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    try:
                        self.modules[rel] = Module(rel, p, self)
                    except SyntaxError as e:
                        raise AnalysisBroken(f"syntax error in {p}: {e}") from e
        self.by_cls: dict[str, Cls] = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.by_cls[c.name] = c
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.base_exprs:
                    r = self.resolve(m, ast.unparse(b))
                    c.bases.append(r if isinstance(r, Cls) else (r if isinstance(r, str) else ast.unparse(b)))
        self._mro: dict = {}
        self.subs: dict = {}
        for c in self.by_cls.values():
            for b in self.mro(c)[1:]:
                if isinstance(b, Cls):
                    self.subs.setdefault(b, []).append(c)

    # -- resolution
    def resolve(self, mod, dotted):
        """Resolve a dotted name used in module mod to Func/Cls/Module/const tuple or external dotted str."""
        head, _, rest = dotted.partition(".")
        if head in mod.funcs:
            return mod.funcs[head] if not rest else None
        if head in mod.classes:
            c = mod.classes[head]
            return self._member(c, rest)
        if head in mod.consts and not rest:
            return ("const", mod, head)
        if head in mod.imports:
            return self.resolve_abs(mod.imports[head] + ("." + rest if rest else ""))
        return None

    def anyname(self, name):
        """what most modules mean by a name"""
        if not hasattr(self, "_any"):
            self._any = {}
        if name not in self._any:
            cnt = {}
            for m in self.modules.values():
                if name in m.imports:
                    cnt[m.imports[name]] = cnt.get(m.imports[name], 0) + 1
            r = None
            if cnt:
                r = self.resolve_abs(max(cnt, key=lambda k: (cnt[k], k)))
            elif name in self.by_cls:
                r = self.by_cls[name]
            self._any[name] = r
        return self._any[name]

    def _member(self, c, rest):
        if not rest:
            return c
        f = self.find(c, rest)
        return f if f is not None else f"{c.qual}.{rest}"

    def resolve_abs(self, dotted):
        if not dotted.startswith(PKG):
            return dotted
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m:
                rest = parts[i:]
                if not rest:
                    return m
                r = self.resolve(m, ".".join(rest))
                return r if r is not None else dotted
        return dotted

    def mro(self, c):
        if c in self._mro:
            return self._mro[c]
        out = [c]
        # simple depth-first, keep last occurrence (approximates C3 for this code base)
        lists = []
        for b in c.bases:
            lists.append(self.mro(b) if isinstance(b, Cls) else [b])
        seq = [x for l in lists for x in l]
        for i, x in enumerate(seq):
            if x not in seq[i + 1 :]:
                out.append(x)
        self._mro[c] = out
        return out

    def find(self, c, name, after=None):
        """Find member function by MRO (after: start after this class)."""
        m = self.mro(c)
        if after is not None:
            m = m[m.index(after) + 1 :] if after in m else m[1:]
        for k in m:
            if isinstance(k, Cls) and name in k.members:
                return k.members[name]
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Cls) and name in k.attrs:
                return k, k.attrs[name]
        return None

    def cls(self, name) -> Cls:
        c = self.by_cls.get(name)
        if c is None:
            raise AnalysisBroken(f"class {name} not found")
        return c

    def method(self, cls, name) -> Func:
        f = self.find(self.cls(cls) if isinstance(cls, str) else cls, name)
        if f is None:
            raise AnalysisBroken(f"method {cls}.{name} not found")
        return f

    def func(self, mod, name) -> Func:
        m = self.modules.get(f"{PKG}.{mod}")
        if m is None or name not in m.funcs:
            # moved elsewhere and re-exported?
            if m is not None and name in m.imports:
                r = self.resolve_abs(m.imports[name])
                if isinstance(r, Func):
                    return r
            for mm in self.modules.values():
                if name in mm.funcs:
                    return mm.funcs[name]
            raise AnalysisBroken(f"function {mod}.{name} not found")
        return m.funcs[name]

    def is_sub(self, c, base_name):
        return any((b.name if isinstance(b, Cls) else str(b).split(".")[-1]) == base_name for b in self.mro(c))

    def fields(self, c):
        """dataclass/pydantic fields in MRO order: name -> default ast or None."""
        out = {}
        for k in reversed([k for k in self.mro(c) if isinstance(k, Cls)]):
            for n in k.anns:
                out[n] = (k, k.attrs.get(n))
            for n in k.attrs:
                if n in out:
                    out[n] = (k, k.attrs[n])
        return out

    def all_funcs(self):
        for m in self.modules.values():
            yield from m.funcs.values()
            for c in m.classes.values():
                yield from c.members.values()
                yield from c.setters.values()
