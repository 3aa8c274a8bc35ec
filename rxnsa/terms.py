"""Hash-consed value-number terms and their canonical forms.

A term is a *value number*: two expressions with the same term compute the same value under
the (over-conflating) equational theory implemented here.  Over-conflation (e.g. list vs tuple,
copies, commutativity of ``+`` on unknown kinds) can only make two values look equal, never
different, so a reported difference never comes from a normalisation step.

Conditions are decision diagrams: ``ite`` nodes ordered by the digest of their (atomic) test, so
propositionally equal control structure has one representation.
"""

from __future__ import annotations

import hashlib
from fractions import Fraction

_TABLE: dict = {}
LIFT_LIMIT = 96


class T:
    __slots__ = ("op", "args", "dg", "_leaves", "_atoms", "_cache", "_ch", "_marks")

    def __repr__(self):
        return show(self)


def _digest(x) -> bytes:
    if isinstance(x, T):
        return x.dg
    if isinstance(x, tuple):
        return hashlib.sha1(b"(" + b",".join(_digest(i) for i in x) + b")").digest()
    return hashlib.sha1((type(x).__name__ + ":" + repr(x)).encode()).digest()


def mk(op: str, *args) -> T:
    """Raw interned construction (no canonicalisation)."""
    k = (op, tuple((type(a), a) if not isinstance(a, (T, tuple)) else a for a in args))
    t = _TABLE.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.dg = hashlib.sha1(op.encode() + b"|" + b"|".join(_digest(a) for a in args)).digest()
        t._leaves = None
        t._atoms = None
        t._cache = None
        t._ch = None
        t._marks = None
        _TABLE[k] = t
    return t


def const(v) -> T:
    if isinstance(v, float) and v == int(v) if isinstance(v, float) and v == v and abs(v) != float("inf") else False:
        v = int(v)
    if isinstance(v, float) and v == v and abs(v) != float("inf"):
        v = Fraction(repr(v))
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    return mk("const", v)


TRUE, FALSE, NONE = mk("const", True), mk("const", False), mk("const", None)
UNDEF = mk("undef")


def is_const(t, v=...):
    return t.op == "const" and (v is ... or (t.args[0] == v and type(t.args[0]) is type(v)))


def is_num(t):
    return t.op == "const" and isinstance(t.args[0], (int, Fraction)) and not isinstance(t.args[0], bool)


# ---------------------------------------------------------------- decision diagrams
def root_atom(*ts):
    best = None
    for t in ts:
        if t.op == "ite" and (best is None or t.args[0].dg < best.dg):
            best = t.args[0]
    return best


def cof(t, atom, val):
    if t.op == "ite" and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    return t


def node(atom, hi, lo):
    if hi is lo:
        return hi
    if atom.op == "truthy" and hi.op == "toset" and hi.args[0] is atom.args[0] and lo.op == "setlit" and not lo.args[0]:
        return mk("toset", mk("orempty", hi.args[0]))  # set(x) if x else set()
    return mk("ite", atom, hi, lo)


def n_leaves(t):
    if t.op != "ite":
        return 1
    if t._leaves is None:
        t._leaves = min(10**6, n_leaves(t.args[1]) + n_leaves(t.args[2]))
    return t._leaves


_ITE: dict = {}


def ite(c, a, b) -> T:
    """c must be a boolean diagram (leaves TRUE/FALSE)."""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    k = (c, a, b)
    r = _ITE.get(k)
    if r is not None:
        return r
    if c.op != "ite":
        raise AssertionError("condition is not boolean: %r" % (c,))
    at = root_atom(c, a, b)
    r = node(at, ite(cof(c, at, 1), cof(a, at, 1), cof(b, at, 1)), ite(cof(c, at, 0), cof(a, at, 0), cof(b, at, 0)))
    _ITE[k] = r
    return r


def b_not(c):
    return ite(c, FALSE, TRUE)


def b_and(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def b_or(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


_CON: dict = {}


def constrain(f, c):
    """Generalised cofactor: canonical value of f on the care set c."""
    if c is TRUE or f.op != "ite":
        return f
    if c is FALSE:
        return f
    k = (f, c)
    r = _CON.get(k)
    if r is not None:
        return r
    at = root_atom(f, c)
    c1, c0 = cof(c, at, 1), cof(c, at, 0)
    if c1 is FALSE:
        r = constrain(cof(f, at, 0), c0)
    elif c0 is FALSE:
        r = constrain(cof(f, at, 1), c1)
    else:
        r = node(at, constrain(cof(f, at, 1), c1), constrain(cof(f, at, 0), c0))
    _CON[k] = r
    return r


def lift(fn, *ts):
    """Apply fn to non-ite leaves, pushing it through decision diagrams (bounded)."""
    n = 1
    for t in ts:
        n *= n_leaves(t)
    if n == 1:
        return fn(*ts)
    if n > LIFT_LIMIT:
        return fn(*ts)
    at = root_atom(*ts)
    return node(
        at,
        lift(fn, *[cof(t, at, 1) for t in ts]),
        lift(fn, *[cof(t, at, 0) for t in ts]),
    )


def leaves(t, pc=TRUE):
    """Yield (guard, leaf)."""
    if t.op == "ite":
        at = node(t.args[0], TRUE, FALSE)
        yield from leaves(t.args[1], b_and(pc, at))
        yield from leaves(t.args[2], b_and(pc, b_not(at)))
    else:
        yield pc, t


def leaf_values(t):
    out = []
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st += [x.args[1], x.args[2]]
        else:
            out.append(x)
    return out


def dd_atoms(t):
    """Atoms tested in the diagram (not inside leaves)."""
    out = {}
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen or x.op != "ite":
            continue
        seen.add(x)
        out[x.args[0]] = 1
        st += [x.args[1], x.args[2]]
    return sorted(out, key=lambda a: a.dg)


def atom(t) -> T:
    """Boolean diagram testing one atom."""
    return node(t, TRUE, FALSE)


# ---------------------------------------------------------------- traversal
def children(t):
    c = t._ch
    if c is None:
        out = []
        st = list(t.args)
        st.reverse()
        while st:
            x = st.pop()
            if isinstance(x, T):
                out.append(x)
            elif isinstance(x, tuple):
                st.extend(reversed(x))
        c = t._ch = tuple(out)
    return c


MARK_OPS = frozenset(("lv", "acc", "elem", "pos", "self", "ref", "param", "env"))
_NONE = frozenset()


def marks(t):
    """the variable-like subterms of t (loop variables, elements, references, ...)"""
    m = t._marks
    if m is not None:
        return m
    st = [t]
    while st:
        x = st[-1]
        if x._marks is not None:
            st.pop()
            continue
        todo = [c for c in children(x) if c._marks is None]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        best = _NONE
        for c in children(x):
            if not c._marks <= best:
                best = c._marks if best <= c._marks else best | c._marks
        if x.op in MARK_OPS:
            best = best | {x}
        x._marks = best
    return t._marks


def subterms(t, stop=None):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if stop and stop(x):
            continue
        st.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def has(t, sub):
    m = marks(sub)
    if not m:
        return any(x is sub for x in subterms(t))
    return m <= marks(t) and any(x is sub for x in subterms(t, lambda x: not m <= marks(x)))


def size(t):
    return sum(1 for _ in subterms(t))


def subst(t, mapping, memo=None):
    """Replace terms (params, lv ...) and rebuild through canonical constructors."""
    if memo is None:
        memo = {}
        if all(k.op in MARK_OPS for k in mapping):
            memo = {None: frozenset(mapping)}
    if t._marks is not None or None in memo:
        ks = memo.get(None)
        if ks is not None and ks.isdisjoint(marks(t)):
            return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in mapping:
        return mapping[t]
    if not t.args or t.op == "const":
        return t
    ch = tuple(_subst_arg(a, mapping, memo) for a in t.args)
    r = t if ch == t.args else rebuild(t.op, ch)
    memo[t] = r
    return r


def _subst_arg(a, mapping, memo):
    if isinstance(a, T):
        return subst(a, mapping, memo)
    if isinstance(a, tuple):
        return tuple(_subst_arg(x, mapping, memo) for x in a)
    return a


REBUILD: dict = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    return f(*args) if f else mk(op, *args)


# ---------------------------------------------------------------- arithmetic
def _poly_items(t):
    if t.op == "poly":
        return dict(t.args[0])
    if is_num(t):
        return {(): Fraction(t.args[0])} if t.args[0] else {}
    return {((t, 1),): Fraction(1)}


def _poly(items):
    items = {m: c for m, c in items.items() if c}
    if not items:
        return const(0)
    if len(items) == 1:
        ((m, c),) = items.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    out = tuple(sorted(((m, c) for m, c in items.items()), key=lambda mc: _digest(mc[0])))
    return mk("poly", out)


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].dg))


def add2(a, b, k=1):
    d = dict(_poly_items(a))
    for m, c in _poly_items(b).items():
        d[m] = d.get(m, 0) + k * c
    return _poly(d)


def mul2(a, b):
    pa, pb = _poly_items(a), _poly_items(b)
    if len(pa) * len(pb) > 64:
        return mk("mulop", *sorted((a, b), key=lambda x: x.dg))
    d: dict = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _poly(d)


def inv(a):
    p = _poly_items(a)
    if len(p) == 1:
        ((m, c),) = p.items()
        return _poly({tuple((x, -e) for x, e in m): 1 / c})
    if not p:
        return mk("divzero")
    # factor out the leading coefficient
    lead = sorted(p.items(), key=lambda mc: _digest(mc[0]))[0][1]
    q = _poly({m: c / lead for m, c in p.items()})
    return _poly({((q, -1),): 1 / lead})


SEQ_OPS = {"list", "concat", "str", "fmt"}


def t_add(a, b):
    return lift(_add, a, b)


def _is_seq(t):
    return t.op in ("list", "concat", "fmt") or (t.op == "const" and isinstance(t.args[0], str)) or (
        t.op == "comp" and t.args[0] == "list") or (t.op in ("typed",) and t.args[1] in ("list", "str"))


KINDS: dict = {}


def kind_of(t):
    k = KINDS.get(t)
    if k:
        return k
    if t.op in ("list", "concat"):
        return "list"
    if t.op == "fmt" or (t.op == "const" and isinstance(t.args[0], str)):
        return "str"
    if t.op == "comp":
        return t.args[0]
    if t.op in ("setlit", "setop", "toset"):
        return "set"
    if t.op in ("dict", "dictupd"):
        return "dict"
    if t.op in ("poly", "sum", "len") or is_num(t):
        return "num"
    if t.op == "sorted":
        return "list"
    return None


def _add(a, b):
    ka, kb = kind_of(a), kind_of(b)
    if "str" in (ka, kb):
        return fmt([a, b])
    if ka == "list" or kb == "list":
        return concat([a, b])
    return add2(a, b)


def concat(parts):
    out = []
    for p in parts:
        if p.op == "concat":
            out += list(p.args[0])
        else:
            out.append(p)
    res = []
    for p in out:
        if p.op == "list" and not p.args[0]:
            continue
        if res and res[-1].op == "list" and p.op == "list":
            res[-1] = mk("list", res[-1].args[0] + p.args[0])
        else:
            res.append(p)
    if not res:
        return mk("list", ())
    if len(res) == 1:
        return res[0]
    return mk("concat", tuple(res))


def fmt(parts):
    out = []
    for p in parts:
        for q in p.args[0] if p.op == "fmt" else (p,):
            if q.op == "const" and isinstance(q.args[0], str) and out and out[-1].op == "const" and isinstance(out[-1].args[0], str):
                out[-1] = mk("const", out[-1].args[0] + q.args[0])
            elif q.op == "const" and q.args[0] == "":
                continue
            else:
                out.append(q)
    if not out:
        return mk("const", "")
    if len(out) == 1 and out[0].op == "const":
        return out[0]
    return mk("fmt", tuple(out))


def t_sub(a, b):
    def f(x, y):
        if kind_of(x) == "set" or kind_of(y) == "set":
            return setop("diff", x, y)
        return add2(x, y, -1)

    return lift(f, a, b)


def t_mul(a, b):
    return lift(mul2, a, b)


def t_neg(a):
    return t_mul(const(-1), a)


def t_div(a, b):
    return lift(lambda x, y: mul2(x, inv(y)), a, b)


def t_pow(a, b):
    def f(x, y):
        if is_num(y):
            e = y.args[0]
            if isinstance(e, int) and abs(e) <= 4:
                r = const(1)
                for _ in range(abs(e)):
                    r = mul2(r, x)
                return inv(r) if e < 0 else r
        return mk("pow", x, y)

    return lift(f, a, b)


def t_abs(a):
    def f(x):
        if is_num(x):
            return const(abs(x.args[0]))
        p = _poly_items(x)
        if len(p) == 1:
            ((m, c),) = p.items()
            d = {}
            for at, e in m:
                b = at if (at.op in ("abs", "len") or e % 2 == 0) else mk("abs", at)
                d[b] = d.get(b, 0) + e
            return _poly({tuple(sorted(d.items(), key=lambda ae: ae[0].dg)): abs(c)})
        lead = sorted(p.items(), key=lambda mc: _digest(mc[0]))[0][1]
        if lead < 0:
            return mk("abs", _poly({m: -c for m, c in p.items()}))
        return mk("abs", x)

    return lift(f, a)


# ---------------------------------------------------------------- sets
def setop(kind, a, b):
    a, b = strip_set(a), strip_set(b)
    if kind in ("union", "inter", "xor"):
        parts = []
        for x in (a, b):
            parts += list(x.args[1]) if x.op == "setop" and x.args[0] == kind else [x]
        parts = sorted(set(parts), key=lambda x: x.dg)
        parts = [p for p in parts if not (kind == "union" and ((p.op == "setlit" and not p.args[0])
                 or (p.op == "list" and not p.args[0])))]
        if not parts:
            return mk("setlit", ())
        if len(parts) == 1:
            return to_set(parts[0])
        if kind == "union" and all(p.op == "setlit" for p in parts):
            return setlit([x for p in parts for x in p.args[0]])
        return mk("setop", kind, tuple(parts))
    return mk("setop", kind, (a, b))


def strip_set(t):
    while t.op == "toset":
        t = t.args[0]
    return t


def to_set(t):
    if t.op in ("setlit", "setop", "toset"):
        return t
    if t.op == "list":
        return setlit(t.args[0])
    if t.op == "comp" and t.args[0] in ("list", "set"):
        return comp("set", *t.args[1:])
    if t.op == "sorted":
        return to_set(t.args[0])
    if t.op == "ite":
        return lift(to_set, t) if n_leaves(t) <= LIFT_LIMIT else mk("toset", t)
    return mk("toset", t)


def setlit(items):
    return mk("setlit", tuple(sorted(set(items), key=lambda x: x.dg)))


# ---------------------------------------------------------------- sequences / comprehensions
# body: decision diagram whose leaves are ("seq", ((tag, payload...), ...))
def seq(*pieces):
    return mk("seq", tuple(pieces))


EMPTY_SEQ = seq()


def one(x):
    if x.op == "tuple":
        return seq_of((mk("one", x),))
    return lift(lambda v: seq(mk("one", v)), x)


def seq_of(pieces):
    """seq of pieces, with decisions inside single pieces floated to the top"""
    if len(pieces) == 1 and pieces[0].op in ("one", "many"):
        op, x = pieces[0].op, pieces[0].args[0]
        if x.op == "ite":
            return lift(lambda v: seq(mk(op, v)), x)
        if op == "one" and x.op == "tuple" and any(c.op == "ite" for c in x.args[0]):
            return lift(lambda *vs: seq(mk("one", mk("tuple", vs))), *x.args[0])
    return mk("seq", tuple(pieces))


def comp(kind, dom, body):
    """comprehension/loop product over domain term."""
    if all(l is EMPTY_SEQ for l in leaf_values(body)):
        return empty(kind)
    if kind == "set" and any(p.op == "many" and p.args[0].op in ("comp", "list", "toset", "sorted") for l in leaf_values(body) for p in l.args[0]):
        body = map_leaves(body, lambda l: seq_of(tuple(mk("many", strip_set(to_set(p.args[0]))) if p.op == "many" else p for p in l.args[0])))
    r = mk("comp", kind, dom, body)
    if kind == "dict" and self_keyed(r) is mk("idx", dom, mk("elem", dom, 0)):
        return dom
    return r


def empty(kind):
    return {"list": mk("list", ()), "set": mk("setlit", ()), "dict": mk("dict", ())}[kind]


def body_pred(body):
    """condition under which body produces something; None if not single-valued"""
    return lift_bool(body, lambda l: FALSE if not l.args[0] else TRUE)


def lift_bool(t, f):
    if t.op == "ite":
        return node(t.args[0], lift_bool(t.args[1], f), lift_bool(t.args[2], f))
    return f(t)


def map_leaves(t, f):
    """t diagram, f: leaf -> diagram."""
    if t.op == "ite":
        return ite(atom(t.args[0]), map_leaves(t.args[1], f), map_leaves(t.args[2], f))
    return f(t)


def exists(dom, cond):
    if cond is FALSE:
        return FALSE
    if cond is TRUE:
        return truthy(dom)
    return atom(mk("exists", dom, cond))


def truthy(t):
    def f(x):
        if x.op == "const":
            return TRUE if x.args[0] else FALSE
        if x.op in ("list", "setlit", "dict"):
            return TRUE if x.args[0] else FALSE
        if x.op == "tuple":
            return TRUE if x.args[0] else FALSE
        if x.op == "comp":
            return exists(x.args[1], body_pred(x.args[2]))
        if x.op == "concat":
            return b_or(*[truthy(p) for p in x.args[0]])
        if x.op in ("toset", "sorted", "keys", "orempty"):
            return truthy(x.args[0])
        if x.op == "len":
            return truthy(x.args[0])
        if x.op in ("new", "lambda", "fn"):
            return TRUE
        if x.op in BOOL_OPS:
            return atom(x)
        return atom(mk("truthy", x))

    return map_leaves(t, f)


BOOL_OPS = {"lt0", "eq", "in", "isinst", "exists", "truthy", "subset", "disjoint", "isclose", "hasattr", "exc", "allany", "brk"}


def as_value(t):
    """boolean diagram used as a value: nothing to do (leaves TRUE/FALSE)."""
    return t


# ---------------------------------------------------------------- comparisons
def c_lt(a, b):
    def f(x, y):
        if kind_of(x) == "set" or kind_of(y) == "set":
            return b_and(c_subset(x, y), b_not(c_eq(x, y)))
        d = add2(x, y, -1)
        if is_num(d):
            return TRUE if d.args[0] < 0 else FALSE
        p = _poly_items(d)
        cs = [abs(c) for m, c in sorted(p.items(), key=lambda mc: _digest(mc[0])) if m != ()]
        lead = cs[0]
        d = _poly({m: c / lead for m, c in p.items()})
        # len(x) > 0 / len(x) < 1
        q = _poly_items(d)
        nonc = {m: c for m, c in q.items() if m != ()}
        if len(nonc) == 1:
            ((m, c),) = nonc.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "len":
                k = q.get((), Fraction(0))
                L = m[0][0]
                if c == 1 and k == -1:  # len < 1
                    return b_not(truthy(L.args[0]))
                if c == -1 and k == 0:  # 0 < len
                    return truthy(L.args[0])
                # integer normal form: use strict bound at integers
                if c == -1:  # -len + k < 0  <=> len > k
                    return b_not(atom(mk("lt0", _poly({m: Fraction(1), (): -(k + 1)})))) if k == int(k) else atom(mk("lt0", d))
        return atom(mk("lt0", d))

    return map2(f, a, b)


def map2(f, a, b):
    n = n_leaves(a) * n_leaves(b)
    if n == 1 or n > LIFT_LIMIT:
        return f(a, b)
    at = root_atom(a, b)
    return ite(atom(at), map2(f, cof(a, at, 1), cof(b, at, 1)), map2(f, cof(a, at, 0), cof(b, at, 0)))


def c_eq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if x.op == "const" and y.op == "const":
            return TRUE if x.args[0] == y.args[0] and (type(x.args[0]) is type(y.args[0]) or not isinstance(x.args[0], bool) and not isinstance(y.args[0], bool)) else FALSE
        for p, q in ((x, y), (y, x)):
            if q is NONE and p.op in ("list", "dict", "setlit", "new", "poly", "tuple", "comp", "fmt", "concat", "lambda", "setop", "sorted"):
                return FALSE
            if q is TRUE and p.op in BOOL_OPS:
                return atom(p)
            if q is FALSE and p.op in BOOL_OPS:
                return b_not(atom(p))
            if p.op == "len" and is_num(q) and q.args[0] == 0:
                return b_not(truthy(p.args[0]))
            if q.op in ("list", "setlit", "dict") and not q.args[0] and p.op not in ("const",):
                return b_not(truthy(p))
        if is_numlike(x) and is_numlike(y):
            d = add2(x, y, -1)
            if is_num(d):
                return TRUE if d.args[0] == 0 else FALSE
        if x.op in ("list", "tuple") and y.op == x.op:
            if len(x.args[0]) != len(y.args[0]):
                return FALSE
        if x.dg > y.dg:
            x, y = y, x
        return atom(mk("eq", x, y))

    return map2(f, a, b)


def is_numlike(t):
    return t.op in ("poly", "len", "sum") or is_num(t)


def c_in(a, b):
    def f(x, y):
        y = strip_set(y)
        if y.op in ("list", "setlit", "tuple") and all(i.op == "const" for i in y.args[0]) and x.op == "const":
            return TRUE if x in y.args[0] else FALSE
        if y.op in ("list", "setlit", "tuple"):
            if not y.args[0]:
                return FALSE
            if len(y.args[0]) <= 4:
                return b_or(*[c_eq(x, i) for i in y.args[0]])
        if y.op == "dict":
            if all(k.op == "const" for k, _ in y.args[0]) and x.op == "const":
                return TRUE if any(k is x for k, _ in y.args[0]) else FALSE
        if y.op == "keys":
            y = y.args[0]
        return atom(mk("in", x, y))

    return map2(f, a, b)


def c_subset(a, b):
    def f(x, y):
        return atom(mk("subset", strip_set(x), strip_set(y)))

    return map2(f, a, b)


# ---------------------------------------------------------------- misc constructors
def t_len(x):
    def f(v):
        if v.op in ("list", "tuple", "setlit", "dict"):
            return const(len(v.args[0]))
        if v.op in ("sorted", "keys", "values", "items"):
            return f(v.args[0])
        if v.op == "comp" and v.args[0] == "list":
            ls = leaf_values(v.args[2])
            if all(len(l.args[0]) == 1 and l.args[0][0].op == "one" for l in ls):
                return f(v.args[1])
        return mk("len", v)

    return lift(f, x)


def t_idx(o, k):
    def f(ob, key):
        if ob.op in ("list", "tuple") and is_num(key) and isinstance(key.args[0], int):
            i = key.args[0]
            if -len(ob.args[0]) <= i < len(ob.args[0]):
                return ob.args[0][i]
        if ob.op == "dict":
            known = True
            for kk, v in reversed(ob.args[0]):
                if kk is key:
                    return v
                if not (kk.op == "const" and key.op == "const"):
                    known = False
                    break
        if ob.op == "dictupd":  # base updated by (k,v)
            base, kk, v = ob.args
            if kk is key:
                return v
            if kk.op == "const" and key.op == "const":
                return f(base, key)
        if key.op == "elem" and ob.op == "comp":
            v = self_keyed(ob)
            if v is not None and key.args[0] is ob.args[1]:
                lv = key.args[1]
                return subst(v, {mk("elem", key.args[0], 0): key}) if lv else v
        if key.op == "pos" and key.args[0] is dom_canon(ob):
            return mk("elem", dom_canon(ob), key.args[1])
        if key.op == "slice":
            lo, hi, st = key.args
            if lo is NONE and hi is NONE and st is NONE:
                return ob
            if ob.op in ("list", "tuple") and st is NONE and all(x is NONE or is_num(x) for x in (lo, hi)):
                return mk(ob.op, ob.args[0][slice(lo.args[0], hi.args[0])])
        return mk("idx", ob, key)

    return lift(f, o, k)


def self_keyed(c):
    """{k: v(k) for k in d} over a mapping d -> v(elem)"""
    kind, dom, body = c.args
    if kind != "dict" or body.op != "seq" or len(body.args[0]) != 1 or body.args[0][0].op != "one":
        return None
    kv = body.args[0][0].args[0]
    e = mk("elem", dom, 0)
    if kv.op != "tuple" or len(kv.args[0]) != 2 or kv.args[0][0] is not e:
        return None
    v = kv.args[0][1]
    return v if has(v, mk("idx", dom, e)) else None


ALIGN: dict = {}


def dom_canon(t):
    return ALIGN.get(t, t)


def t_sum(c, start=None):
    """sum of a list-comprehension term or arbitrary iterable."""

    def f(x):
        if x.op == "list":
            r = const(0)
            for i in x.args[0]:
                r = t_add(r, i)
            return r
        if x.op == "comp" and x.args[0] == "list":
            kind, dom, body = x.args
            # factor out what does not depend on the element
            fac = _common_factor(dom, body)
            if fac is not None:
                f0, body2 = fac
                return t_mul(f0, mk("sum", comp("list", dom, body2)))
        if x.op == "concat":
            r = const(0)
            for i in x.args[0]:
                r = t_add(r, f(i))
            return r
        return mk("sum", x)

    r = lift(f, c)
    return r if start is None else t_add(start, r)


def _common_factor(dom, body):
    ls = leaf_values(body)
    monos = []
    for l in ls:
        for p in l.args[0]:
            if p.op != "one":
                return None
            it = _poly_items(p.args[0])
            if len(it) != 1:
                return None
            monos.append(next(iter(it.items())))
    if not monos:
        return None

    def inv_atoms(m):
        return {(a, e) for a, e in m if not any(t.op in ("elem", "pos") and t.args[0] is dom for t in marks(a))}

    common = inv_atoms(monos[0][0])
    for m, c in monos[1:]:
        common &= inv_atoms(m)
    c0 = monos[0][1]
    if any(c != c0 for _, c in monos):
        c0 = Fraction(1)
    if not common and c0 == 1:
        return None
    fac = _poly({tuple(sorted(common, key=lambda ae: ae[0].dg)): c0})

    def div(l):
        return seq(*[mk("one", mul2(p.args[0], inv(fac))) for p in l.args[0]])

    return fac, map_leaves(body, div)


def _rb_comp(kind, dom, body):
    return comp(kind, dom, body)


def _rb_poly(items):
    r = const(0)
    for m, c in items:
        x = const(c)
        for a, e in m:
            for _ in range(abs(e)):
                x = t_mul(x, a) if e > 0 else t_div(x, a)
        r = t_add(r, x)
    return r


def _rb_ite(a, hi, lo):
    return ite(rb_atom(a), hi, lo)


def rb_atom(a):
    if isinstance(a, T) and (a.op == "ite" or a in (TRUE, FALSE)):
        return a
    f = {
        "truthy": lambda x: truthy(x),
        "eq": c_eq,
        "in": c_in,
    }.get(a.op)
    return f(*a.args) if f else atom(a)


REBUILD.update(
    poly=_rb_poly,
    ite=_rb_ite,
    comp=_rb_comp,
    idx=t_idx,
    len=t_len,
    sum=t_sum,
    abs=t_abs,
    concat=lambda ps: concat(ps),
    fmt=lambda ps: fmt(ps),
    toset=to_set,
    one=lambda x: mk("one", x),
    setop=lambda k, ps: _rb_setop(k, ps),
)


def _rb_setop(k, ps):
    if k == "diff":
        return setop(k, *ps)
    r = ps[0]
    for p in ps[1:]:
        r = setop(k, r, p)
    return r


# ---------------------------------------------------------------- printing
def show(t, depth=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.args
    if o == "const":
        return repr(a[0]) if not isinstance(a[0], Fraction) else str(float(a[0]))
    if o in ("param", "glob"):
        return a[0]
    if o == "self":
        return "self"
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "idx":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "ite":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if o == "poly":
        out = []
        for m, c in a[0]:
            s = "*".join(show(x, d) + (f"^{e}" if e != 1 else "") for x, e in m)
            cs = str(c) if c.denominator == 1 else str(float(c))
            out.append(s if cs == "1" and s else (f"{cs}*{s}" if s else cs))
        return "(" + " + ".join(out) + ")"
    if o == "call":
        fn, pos, kw = a
        xs = [show(p, d) for p in pos] + [f"{k}={show(v, d)}" for k, v in kw]
        return f"{show(fn, d)}({', '.join(xs)})"
    if o == "new":
        return f"{a[0]}({', '.join(f'{k}={show(v, d)}' for k, v in a[1])})"
    if o in ("list", "tuple", "setlit"):
        return {"list": "[", "tuple": "(", "setlit": "{"}[o] + ", ".join(show(x, d) for x in a[0]) + {"list": "]", "tuple": ")", "setlit": "}"}[o]
    if o == "dict":
        return "{" + ", ".join(f"{show(k, d)}: {show(v, d)}" for k, v in a[0]) + "}"
    if o == "comp":
        return f"{a[0]}⟨{show(a[2], d)} for {show(a[1], d)}⟩"
    if o == "elem":
        return f"elem({show(a[0], d)})"
    if o == "pos":
        return f"pos({show(a[0], d)})"
    if o == "lt0":
        return f"{show(a[0], d)}<0"
    if o == "eq":
        return f"{show(a[0], d)}=={show(a[1], d)}"
    if o == "in":
        return f"{show(a[0], d)} in {show(a[1], d)}"
    if o == "truthy":
        return f"bool({show(a[0], d)})"
    return f"{o}({', '.join(show(x, d) for x in a)})"
