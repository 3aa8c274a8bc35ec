"""Obligation bookkeeping shared by all rules."""

from __future__ import annotations

import json
import os
import textwrap
import time
import traceback

from . import terms as X
from .compare import DIFFER, EQUAL, UNKNOWN, compare
from .evalr import Engine
from .model import REPO, AnalysisBroken, Cls, Func, Program
from .wrong import wrong
from .terms import FALSE, NONE, TRUE, T, b_and, b_not, b_or, mk

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
API = os.path.join(HERE, "rxnsa", "api_names.json")

HOLD, VIOL, INC = "discharged", "violated", "inconclusive"


def const_defaults(node):
    import ast

    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    out = {}
    for k, v in d.items():
        try:
            out[k] = ast.literal_eval(v)
        except ValueError:
            pass
    return out


class Ob:
    def __init__(self, rule, construct, status, detail="", where=""):
        self.rule, self.construct, self.status, self.detail, self.where = rule, construct, status, detail, where

    @property
    def key(self):
        return f"{self.rule}::{self.construct}"


def api_names():
    with open(API) as f:
        return set(json.load(f))


class Ctx:
    vet = None  # tools/vet.py: every wrong text is evaluated and compared with the reference

    def __init__(self, prog: Program):
        self.p = prog
        api = api_names()
        self.engines = [Engine(prog, opaque=api), Engine(prog, opaque=api, inline_public=True)]
        self.e0 = self.engines[0]
        self.obs: list[Ob] = []
        self.broken: list[str] = []
        self.analysed: set = set()
        self.seen: set = set()
        self.opq: dict = {}
        self.refsig: dict = {}
        self.pending: list = []

    # ------------------------------------------------------------------ recording
    def add(self, rule, construct, status, detail="", f: Func | None = None, line=None):
        where = ""
        if f is not None:
            where = f"{f.file}:{line or f.line}"
            self.analysed.add(f.qual)
        self.obs.append(Ob(rule, construct, status, detail, where))

    def holds(self, rule, construct, ok, detail="", f=None, line=None):
        self.add(rule, construct, HOLD if ok else VIOL, "" if ok else detail, f, line)

    def guard(self, rule, construct, fn):
        """run fn(); unresolvable anchors are recorded, never silently skipped."""
        try:
            return fn()
        except AnalysisBroken as e:
            self.broken.append(f"{rule}::{construct}: {e}")
        except RecursionError:
            self.add(rule, construct, INC, "recursion limit")
        return None

    # ------------------------------------------------------------------ helpers
    def method(self, cls, name):
        f = self.p.method(cls, name)
        self.analysed.add(f.qual)
        return f

    def res(self, cls, name, eng=None, args=None):
        """analyse method `name` as seen by dynamic class cls (or module function if cls is a module path)."""
        eng = eng or self.e0
        if "." in cls or (cls not in self.p.by_cls and f"rxn_network.{cls}" in self.p.modules):
            f = self.p.func(cls, name)
            self.analysed.add(f.qual)
            return eng.run(f, None, args)
        f = self.method(cls, name)
        return eng.run(f, self.p.cls(cls), args)

    def target(self, cls, name):
        if "." in cls or (cls not in self.p.by_cls and f"rxn_network.{cls}" in self.p.modules):
            return self.p.func(cls, name), None
        return self.p.method(cls, name), self.p.cls(cls)

    def spec(self, rule, cls, name, src, what="ret", sel=None, construct=None, why="", args=None, cut=None, opaque=(), alts=(), bad=()):
        """The value `what` of cls.name equals the one computed by the reference text.

        alts: further reference texts that are as good as `src`.
        bad: texts that compute something the property forbids; a function that computes exactly that is in violation.
        opaque: names of helpers that are not looked into (provided their signature is the reference one); their own behaviour
        is the subject of other obligations.
        cut: names of functions (or "fold") whose results are taken as given on both sides (they have their own obligations).
        what: 'ret' | 'store:<attr>' | callable(Result)->T.  sel: leaf projection applied to both.
        """
        construct = construct or f"{cls}.{name}"
        self.refsig.setdefault(name, ref_args(src))

        def go():
            f, c = self.target(cls, name)
            self.analysed.add(f.qual)
            text = textwrap.dedent(src).strip()
            best = None
            engines = list(self.engines)
            ok = tuple(sorted(n for n in opaque if self.same_signature(f, c, n)))
            if ok:
                if ok not in self.opq:
                    self.opq[ok] = Engine(self.p, opaque=self.e0.opaque_names, no_inline=ok)
                engines = [self.opq[ok], *engines]
            elif opaque and callable(what):
                self.add(rule, construct, INC, f"helpers {opaque} are not there with the reference signature", f)
                return
            for eng in engines:
                act = eng.run(f, c, args)
                ref = eng.run_def_cached(text, c, f.mod, f)
                a, b = pick(act, what), pick(ref, what)
                if callable(what) and eng is not engines[0] and b.op == "list" and not b.args[0]:
                    continue  # the effect was inlined away
                if a is None or b is None:
                    st, ms = (VIOL if a is None and b is not None and what.startswith("store:") else UNKNOWN), []
                    if st == VIOL:
                        attr = what[6:]
                        dyn = c is not None and (self.p.find(c, attr) is not None or attr in c.attrs) and not self.backed(c, attr)
                        st = UNKNOWN if dyn or any(ev.kind == "call" and "setattr" in X.show(ev.term if hasattr(ev, "term") else mk("x"), 3) for ev in act.events) else DIFFER
                        ms = [f"attribute {attr} is not set"]
                else:
                    if sel is not None:
                        a, b = sel(a), sel(b)
                    if cut:
                        memo = {}
                        a, b = cut_term(a, cut, memo), cut_term(b, cut, memo)
                    care = b_and(act.ret_pc, ref.ret_pc) if what == "ret" else TRUE
                    if care is FALSE:
                        care = TRUE
                    if cut is None:
                        a, b = X.constrain(a, care), X.constrain(b, care)
                    st, ms = compare(a, b)
                for wrong in bad if self.vet is not None else ():
                    try:
                        b2 = pick(eng.run_def_cached(textwrap.dedent(wrong).strip(), c, f.mod, f), what)
                        b2 = sel(b2) if sel and b2 is not None else b2
                        b2 = cut_term(b2, cut, {}) if cut and b2 is not None else b2
                        self.vet.append((construct, wrong, "none" if b2 is None else compare(b, b2)[0] if b is not None else "noref"))
                    except Exception as e:  # noqa: BLE001
                        self.vet.append((construct, wrong, repr(e)))
                for alt in alts if st != EQUAL else ():
                    b2 = pick(eng.run_def_cached(textwrap.dedent(alt).strip(), c, f.mod, f), what)
                    if b2 is not None and act is not None and compare(a, sel(b2) if sel else b2)[0] == EQUAL:
                        st, ms = EQUAL, []
                        break
                empty = callable(what) and a is not None and a.op == "list" and not a.args[0]
                for wrong in bad if st == UNKNOWN and not empty else ():
                    b2 = pick(eng.run_def_cached(textwrap.dedent(wrong).strip(), c, f.mod, f), what)
                    if b2 is None:
                        continue
                    b2 = sel(b2) if sel else b2
                    if (cut_term(b2, cut, {}) if cut else b2) is a or compare(a, b2)[0] == EQUAL:
                        st, ms = DIFFER, ["computes what the property rules out"]
                        break
                if st == EQUAL and what == "ret" and sel is None:
                    la, lb = effects(kinds=("mutlocal",))(act), effects(kinds=("mutlocal",))(ref)
                    if la is not lb and compare(la, lb)[0] != EQUAL:
                        st, ms = UNKNOWN, ["temporary objects are changed differently"]
                if st == EQUAL:
                    self.add(rule, construct, HOLD, f=f)
                    return
                if best is None or (st == DIFFER and best[0] != DIFFER):
                    best = (st, ms)
            st, ms = best
            detail = (why + " — " if why else "") + "; ".join(str(m) for m in ms[:3])
            self.add(rule, construct, VIOL if st == DIFFER else INC, detail, f)
            if st != DIFFER:
                self.pending.append((self.obs[-1], text, engines[:2], f, c, args, what, sel, cut))

        self.guard(rule, construct, go)
        if what == "ret" and sel is None and "raise " in src and "try:" not in src:
            self.spec(rule, cls, name, src, what="raises", construct=construct + ":raises", why="when it raises", args=args, opaque=opaque)
        self.guard(rule, construct, lambda: self.defaults(rule, cls, name, src))

    def resolve(self, limit=420.0):
        """Undecided obligations: is what the function computes exactly what the specification with one mistake computes?"""
        groups = {}
        for p in self.pending:
            groups.setdefault((p[1], p[3], p[4], p[2][0]), []).append(p)
        self.pending = []
        t0 = time.time()
        for g in groups.values():
            left = limit - (time.time() - t0)
            if left <= 0:
                break
            for i, desc in mistaken(g, min(left, max(60.0, limit / len(groups)))):
                ob = g[i][0]
                ob.status = VIOL
                ob.detail = f"computes what the specification with this mistake computes: {desc} [{ob.detail}]"

    def same_signature(self, f, c, name):
        """helper `name` (method of the class or function of the module) takes the parameters of its reference text"""
        g = (self.p.find(c, name) if c is not None else None) or f.mod.funcs.get(name)
        if g is None:
            g = self.p.resolve(f.mod, name)
            if not isinstance(g, Func):  # a method of another class
                ms = self.e0.meth_index.get(name, ())
                g = ms[0] if len(ms) == 1 else None
        if g is None or name not in self.refsig:
            return False
        a = g.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] == self.refsig[name]

    def backed(self, c, attr):
        """attr is a property that just returns the field self._attr"""
        from .evalr import trivial_getter

        m = self.p.find(c, attr)
        return m is not None and attr not in c.attrs and trivial_getter(m) == "_" + attr

    def defaults(self, rule, cls, name, src):
        """default parameter values agree with those of the reference signature"""
        f, c = self.target(cls, name)
        import ast

        ref = Func(f.mod, ast.parse(textwrap.dedent(src).strip()).body[0], c)
        want, have = const_defaults(ref.node), const_defaults(f.node)
        need = required(f.node)
        for k, v in want.items():
            if ("dflt", rule, f.qual, k) in self.seen:
                continue
            self.seen.add(("dflt", rule, f.qual, k))
            if k in need:
                self.add(rule + "-default", f"{cls}.{name}({k})", VIOL, f"{k} may be left out, but the function requires it", f)
                continue
            if k in have:
                if have[k] != v and not (have[k] is not None and type(have[k]) is type(v) is float and abs(have[k] - v) < 1e-12):
                    self.add(rule + "-default", f"{cls}.{name}({k})", VIOL, f"default of {k} is {have[k]!r}, documented {v!r}", f)
                else:
                    self.add(rule + "-default", f"{cls}.{name}({k})", HOLD, "", f)

    def same(self, rule, construct, a, b, f=None, why="", line=None):
        """value numbers a (found) and b (expected) agree"""
        st, ms = compare(a, b)
        detail = (why + " — " if why else "") + "; ".join(str(m) for m in ms[:3])
        self.add(rule, construct, {EQUAL: HOLD, DIFFER: VIOL, UNKNOWN: INC}[st], "" if st == EQUAL else detail, f, line)
        return st


JOBS = int(os.environ.get("RXNSA_JOBS", "8"))


def mistaken(group, limit):
    """[(index in group, mistake)] - the work is split over forked processes that share the value table"""
    ws = wrong(group[0][1])
    t_end = time.time() + limit
    kids = []
    for k in range(JOBS):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                found = try_mistakes(group, ws[k::JOBS], t_end)
                with os.fdopen(w, "w") as out:
                    json.dump(found, out)
            finally:
                os._exit(0)
        os.close(w)
        kids.append((pid, r))
    best = {}
    for pid, r in kids:
        with os.fdopen(r) as inp:
            s = inp.read()
        os.waitpid(pid, 0)
        for i, n, desc in json.loads(s) if s else []:
            if i not in best or n < best[i][0]:
                best[i] = (n, desc)
    return [(i, d) for i, (_, d) in sorted(best.items())]


def same(a, b):
    return a is b or a.op == b.op and compare(a, b, 40_000)[0] == EQUAL


def try_mistakes(group, ws, t_end):
    out = []
    _, text, engines, f, c, args, _, _, _ = group[0]
    side = effects(kinds=("mutlocal",))

    def norm(res, what, sel, cut):
        t = pick(res, what)
        if t is None:
            return None
        if sel is not None:
            t = sel(t)
        return cut_term(t, cut, {}) if cut else t

    todo = set(range(len(group)))
    base = []
    for eng in engines:
        act, ref = eng.run(f, c, args), eng.run_def_cached(text, c, f.mod, f)
        base.append((eng, act, [(norm(act, *p[6:]), norm(ref, *p[6:])) for p in group]))
    for n, (w, desc) in enumerate(ws):
        for eng, act, terms in base:
            if time.time() > t_end or not todo:
                return out
            try:
                res = eng.run_def_cached(w, c, f.mod, f)
            except Exception:  # noqa: BLE001
                continue
            for i in sorted(todo):
                what, sel, cut = group[i][6:]
                a, b0 = terms[i]
                if a is None or a is b0:
                    continue
                try:
                    b = norm(res, what, sel, cut)
                except Exception:  # noqa: BLE001
                    continue
                if b is None or b is b0:
                    continue
                if what == "ret" and cut is None:
                    care = b_and(act.ret_pc, res.ret_pc)
                    if care is not FALSE:
                        a, b = X.constrain(a, care), X.constrain(b, care)
                if not same(a, b):
                    continue
                if b is not a and same(b, b0):
                    continue
                if what != "ret" or side(act) is side(res):
                    out.append((i, n, desc))
                    todo.discard(i)
    return out


def required(node):
    """parameters without a default"""
    a = node.args
    pos = a.posonlyargs + a.args
    out = {x.arg for x in pos[:len(pos) - len(a.defaults)]}
    return out | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}


def ref_args(src):
    import ast

    a = ast.parse(textwrap.dedent(src).strip()).body[0].args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def cut_term(t, names, memo, top=True):
    """replace the results of the named calls (and folds) by symbols"""
    from .evalr import call_name

    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "call" and not top:
        nm = call_name(t)
        if nm in names:
            memo[t] = mk("cut", nm)
            return memo[t]
    if t.op == "fold" and "fold" in names and not top:
        memo[t] = mk("cut", "fold")
        return memo[t]
    if not t.args or t.op == "const":
        return t

    def arg(a):
        if isinstance(a, T):
            return cut_term(a, names, memo, False)
        if isinstance(a, tuple):
            return tuple(arg(x) for x in a)
        return a

    ch = tuple(arg(a) for a in t.args)
    r = t if ch == t.args else X.rebuild(t.op, ch)
    memo[t] = r
    return r


def pick(res, what):
    if callable(what):
        return what(res)
    if what == "ret":
        return res.ret
    if what == "raises":
        return b_or(*[p for p, _ in res.raises]) if res.raises else FALSE
    if what.startswith("store:"):
        nm = what[6:]
        for (o, a), v in res.store.items():
            if o.op in ("self",) and a == nm:
                return v
        if nm.startswith("_"):  # backing field of a property
            return pick(res, "store:" + nm[1:])
        return None
    raise ValueError(what)


def folds(*cuts):
    """what= projection: every loop-carried accumulation feeding the result, each with the other ones (and the results of the
    named calls) taken as given."""

    def pick_(res):
        out, seen, st = [], set(), [res.ret]
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == "fold":
                out.append(t)
            st.extend(reversed(X.children(t)))
        memo = {}
        fs = []
        for t in out:
            c = cut_term(t, ("fold",) + cuts, {}, True)
            if c not in fs:
                fs.append(c)
        return mk("folds", tuple(sorted(fs, key=lambda f: (len(f.args[1]), X.size(f)))))

    return pick_


def canonical_order(parts):
    """events that exclude each other may be written in any order: the least order reachable by swapping such neighbours"""
    n = len(parts)
    if n > 60 or n < 2:
        return [t for _, t in parts]
    before = [[j for j in range(i) if b_and(parts[i][0], parts[j][0]) is not FALSE] for i in range(n)]
    left, out = list(range(n)), []
    while left:
        i = min((i for i in left if not any(j in left for j in before[i])), key=lambda i: (parts[i][1].dg, i))
        left.remove(i)
        out.append(parts[i][1])
    return out


def vary(src, *pairs):
    """the reference text with one thing changed at a time"""
    for a, b in pairs:
        assert src.count(a) == 1, (src.count(a), a)
    return [src.replace(a, b) for a, b in pairs]


def effects(*names, kinds=("call",), recv=True, only=None, of=None):
    """what= projection: the sequence of calls of the named functions/methods (receiver, arguments) with the conditions and
    loops under which they happen.  only: the keyword arguments that matter.
    of: only changes of (parts of) this parameter."""
    from .evalr import call_name

    def pick_(res):
        parts = []
        for e in res.events:
            if e.kind not in kinds:
                continue
            if of is not None:
                r = e.data[1] if e.kind == "mut" else e.data[0]
                while r.op in ("idx", "attr"):
                    r = r.args[0]
                if r is not mk("param", of):
                    continue
            if e.kind == "call":
                nm = call_name(e.data[0])
                if nm not in names:
                    continue
                t = e.data[0]
                if not recv and t.op == "call" and t.args[0].op == "meth":
                    t = mk("call", mk("const", nm), *t.args[1:])
                if only is not None and t.op == "call":
                    t = mk("call", t.args[0], t.args[1], tuple(x for x in t.args[2] if x[0] in only))
                pay = t
            elif e.kind in ("setattr", "mut"):
                nm = e.data[1].args[0] if e.kind == "setattr" else e.data[0].args[0]
                if names and nm not in names:
                    continue
                pay = mk("tuple", tuple(e.data[:3] if e.kind == "setattr" else e.data))
            else:
                pay = mk("tuple", tuple(e.data))
            body = X.ite(e.guard, X.seq(mk("one", pay)), X.EMPTY_SEQ)
            t = None
            for d in reversed(e.loops):
                t = X.comp("list", d, body if t is None else X.seq(mk("many", t)))
            if t is None:
                t = X.map_leaves(body, lambda l: mk("list", (l.args[0][0].args[0],)) if l.args[0] else mk("list", ()))
            parts.append((e.guard, res.close(t)))
        return X.concat(canonical_order(parts)) if parts else mk("list", ())

    return pick_


def field(name):
    """projection: constructor argument `name` of every constructed leaf"""

    def sel(t):
        def f(l):
            if l.op == "new":
                return dict(l.args[1]).get(name, mk("undef"))
            return l if l.op == "const" else mk("unk", l)

        return X.map_leaves(t, f)

    return sel


def fields(*names):
    def sel(t):
        def f(l):
            if l.op == "new":
                d = dict(l.args[1])
                return mk("new", l.args[0], tuple((n, d[n]) for n in sorted(names) if n in d))
            return l if l.op == "const" else mk("unk", l)

        return X.map_leaves(t, f)

    return sel


def key_of(k):
    """projection: value of constant key k of a returned dict"""

    def sel(t):
        return X.t_idx(t, X.const(k))

    return sel


_DEFS: dict = {}


def _run_def_cached(self, src, cls, mod, like=None):
    k = (id(self), src, cls, mod, like)
    if k not in _DEFS:
        import ast

        node = ast.parse(src).body[0]
        fn = Func(mod, node, like.cls if like is not None else cls)
        if like is not None:
            for a in ("is_class", "is_static", "is_prop", "is_cached"):
                setattr(fn, a, getattr(like, a))
            if like.is_class:
                node.decorator_list.append(ast.Name(id="classmethod", ctx=ast.Load()))
        _DEFS[k] = self.run(fn, cls, types=self.run(like, cls).types if like is not None else None)
    return _DEFS[k]


Engine.run_def_cached = _run_def_cached


# ---------------------------------------------------------------------- running a property
def run_property(pid, title, rule_fn, floor, tier, seed, quiet=False, explain="", assumptions=()):
    t0 = time.time()
    out = {}
    prog = Program()
    ctx = Ctx(prog)
    err = None
    try:
        rule_fn(ctx)
        ctx.resolve(420.0 if tier == "quick" else 780.0)
    except AnalysisBroken as e:
        ctx.broken.append(str(e))
    except Exception:  # noqa: BLE001
        err = traceback.format_exc()
    viol = [o for o in ctx.obs if o.status == VIOL]
    hold = [o for o in ctx.obs if o.status == HOLD]
    inc = [o for o in ctx.obs if o.status == INC]
    known = load_known(pid)
    new, old = [], []
    for o in viol:
        (old if o.key in known else new).append(o)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": explain,
            "obligations_total": len(ctx.obs),
            "obligations_decided": len(hold) + len(viol),
            "obligations_inconclusive": len(inc),
            "functions_analysed": len(ctx.analysed),
            "modules_parsed": len(prog.modules),
            "rules": sorted({o.rule for o in ctx.obs}),
            "samples": [f"{o.rule} | {o.construct} | {o.status} | {o.where}" for o in ctx.obs[:40]],
            "inconclusive": [f"{o.rule} | {o.construct} | {o.detail[:300]}" for o in inc[:40]],
            "functions": sorted(ctx.analysed)[:200],
            "known_findings_seen": [o.key for o in old],
            "analysis_broken": ctx.broken[:20],
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(HERE, "evidence", f"{pid}.replay.json")
    print(f"{pid}: {title}")
    print(f"  analysed {len(prog.modules)} modules, {len(ctx.analysed)} functions; obligations: {len(hold)} discharged, "
          f"{len(viol)} violated, {len(inc)} inconclusive")
    for o in inc:
        print(f"  inconclusive: {o.rule} | {o.construct} | {o.detail[:220]}")
    for o in old:
        print(f"KNOWN-FINDING: property={pid} {o.key} {known[o.key]}")
    if new:
        with open(rp, "w") as f:
            json.dump([{"rule": o.rule, "construct": o.construct, "where": o.where, "detail": o.detail} for o in new], f, indent=1)
        for o in new:
            print(f"  violated: {o.rule} | {o.construct} | {o.where} | {o.detail[:1500]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if err:
        print(err)
        print(f"{pid}: analysis error")
        return 3
    for b in ctx.broken:
        print(f"  analysis broken: {b}")
    if len(hold) + len(old) < floor:
        print(f"{pid}: only {len(hold)} obligations decided, at least {floor} needed")
        return 2
    return 0


def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {x["key"]: x["what"] for x in d.get("findings", []) if x["property"] == pid}
