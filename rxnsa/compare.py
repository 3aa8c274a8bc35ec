"""Three-valued comparison of value numbers: EQUAL / DIFFER (definite) / UNKNOWN.

A difference is *definite* only when every minimal differing pair of sub-terms lies in the
interpreted fragment (arithmetic over the same atoms, tests over the same atoms, constants,
attribute/parameter paths, constructor bindings, set algebra, dropped/added operands).  Anything
else (restructured loops, unrelated library calls, unsupported syntax) is UNKNOWN, never a report.
"""

from __future__ import annotations

import itertools
from dataclasses import dataclass

from . import terms as X
from .terms import FALSE, NONE, TRUE, T, mk

EQUAL, DIFFER, UNKNOWN = "equal", "differ", "unknown"

ANTONYMS = [
    {"min", "max"}, {"any", "all"}, {"numpy.argmin", "numpy.argmax"}, {"math.floor", "math.ceil"}, {"numpy.floor", "numpy.ceil"},
    {"numpy.zeros", "numpy.ones"}, {"itertools.combinations", "itertools.permutations", "itertools.product", "itertools.combinations_with_replacement"},
    {"numpy.vstack", "numpy.hstack"}, {"math.exp", "math.log"}, {"numpy.nanmin", "numpy.nanmax"}, {"numpy.mean", "numpy.median"},
    {"heapq.heappush", "heapq.heappop"}, {"sum", "max", "min"}, {"max", "numpy.mean"}, {"min", "numpy.mean"},
]
# attribute pairs that denote the same values when only iterated / tested
ATTR_EQ = [
    {"reactants", "reactant_coeffs"}, {"products", "product_coeffs"}, {"open_elems", "chempots"},
    {"entries", "entries_list"}, {"nodes", "_nodes"}, {"sites", "site"},
]
OPAQUE_MARKS = {"unk", "top", "phi", "lostref", "cyc", "mutated"}
BENIGN_WRAP = {"toset", "sorted", "strof", "last", "first", "until", "keys", "items", "values", "reversed", "one", "seq", "many", "comp", "fold", "ite", "exists", "truthy"}
PATH = {"param", "self", "attr", "elem", "pos", "lam", "clsobj"}


@dataclass
class Mis:
    definite: bool
    a: T
    b: T
    why: str

    def __str__(self):
        return f"{self.why}: found {X.show(self.a, 6)}  expected {X.show(self.b, 6)}"


def is_path(t):
    while t.op in ("attr", "idx"):
        if t.op == "idx" and t.args[1].op != "const":
            return False
        t = t.args[0]
    return t.op in PATH or t.op == "glob"


def opaque(t):
    return X.contains(t, lambda x: x.op in OPAQUE_MARKS)


WORK = [0]


def compare(a: T, b: T, work=1_500_000):
    """a: found, b: expected -> (status, [Mis])."""
    if a is b:
        return EQUAL, []
    D = Differ(b)
    WORK[0] = work
    ms = D.diff(a, b, 0)
    if WORK[0] < 0:
        return UNKNOWN, [Mis(False, a, b, "comparison budget")]
    if not ms:
        return EQUAL, []
    uniq = {}
    for m in ms:
        # nested loops show the same difference once per loop value, and a moved condition in both directions
        x, y = erase_acc(m.a), erase_acc(m.b)
        if isinstance(x, T) and isinstance(y, T) and {x.op, y.op} == {"seq"} and not (x.args[0] and y.args[0]):
            x, y = "skipped", x.args[0] == ()  # the same elements left out under several cases
        k = frozenset((x, y))
        if k not in uniq or uniq[k].definite and not m.definite:
            uniq[k] = m
    ms = list(uniq.values())
    if len(ms) <= 6 and all(m.definite for m in ms):
        return DIFFER, ms
    return UNKNOWN, ms


_ERASED: dict = {}


def erase_acc(t):
    """the term with its loop accumulators unnumbered"""
    if isinstance(t, tuple):
        return tuple(erase_acc(x) for x in t)
    if not isinstance(t, T) or not any(m.op == "acc" and m.args[0] != 0 for m in X.marks(t)):
        return t
    r = _ERASED.get(t)
    if r is None:
        r = _ERASED[t] = mk("acc", 0) if t.op == "acc" else X.rebuild(t.op, tuple(erase_acc(x) for x in t.args))
    return r


class Differ:
    def __init__(self, root):
        self.memo = {}
        self.budget = 4000
        self.sub = set(X.subterms(root))
        self.syms = set()
        for t in self.sub:
            self.syms |= symbols(t)
        self.vmemo = {}
        self.smemo = {}

    def known(self, t):
        """t is built only from values and operations the specification itself uses (no new loops, calls, names)."""
        if t in self.sub or t.op == "const" or is_path(t):
            return True
        r = self.vmemo.get(t)
        if r is None:
            self.vmemo[t] = False
            r = t.op not in LOOPISH and t.op not in OPAQUE_MARKS and symbols(t) <= self.syms and all(self.known(c) for c in X.children(t))
            self.vmemo[t] = r
        return r

    def mis(self, a, b, why):
        """a structural difference is definite when the found term speaks the vocabulary of the specification"""
        return Mis(self.known(a), a, b, why)

    def diff(self, a, b, depth):
        if a is b:
            return []
        k = (a, b)
        if k in self.memo:
            return self.memo[k]
        self.budget -= 1
        if self.budget < 0 or depth > 40:
            return [Mis(False, a, b, "comparison budget")]
        self.memo[k] = []
        r = self._diff(a, b, depth)
        self.memo[k] = r
        return r

    def _diff(self, a, b, d):
        if a.op == "ite" or b.op == "ite":
            return self.dd(a, b, d)
        if "emptyish" in (a.op, b.op):
            return [] if falsy(a) and falsy(b) else [Mis(False, a, b, "empty values")]
        if a.op == "undef" and b.op not in OPAQUE_MARKS:
            return [Mis(not falsy(b), a, b, "no value")]
        if a.op in OPAQUE_MARKS or b.op in OPAQUE_MARKS:
            return [Mis(False, a, b, "not analysable")]
        if "cut" in (a.op, b.op):
            return [Mis(a.op == b.op or falsy(a) or a.op == "const", a, b, "different source")]
        if a.op == b.op:
            m = getattr(self, "d_" + a.op, None)
            if m is not None:
                return m(a, b, d)
            return self.generic(a, b, d)
        if "poly" in (a.op, b.op) and all(x.op in ("poly", "param", "attr", "idx", "const", "elem", "pos", "len", "sum", "abs", "call") for x in (a, b)):
            if all(x.op != "const" or X.is_num(x) for x in (a, b)):
                return self.d_poly(a, b, d)
        for x, y in ((a, b), (b, a)):
            if x is a and y.op in ("fold", "comp", "first") and (x.op == "const" or falsy(x)):
                if not (falsy(x) and y.op != "fold" and False):
                    return [Mis(True, a, b, "empty in place of a collection")]
            if x.op == "const" and (is_path(y) or y.op in ("poly", "new", "len", "sum", "abs", "call", "list", "dict", "comp", "setlit", "setop", "tuple", "fmt", "isclose", "exists", "lt0", "eq", "in", "truthy")):
                if falsy(x) and falsy(y):
                    return [Mis(False, a, b, "empty values")]
                return [Mis(True, a, b, "constant in place of a value")]
        if is_path(a) and is_path(b):
            return [Mis(True, a, b, "different value")]
        if a.op in ("list", "dict", "setlit") and falsy(a) and is_path(b):
            return [Mis(True, a, b, "empty in place of a value")]
        if a.op in UPDS and b.op in UPDS or (a.op in UPDS and upd_chain(a)[0] is b) or (b.op in UPDS and upd_chain(b)[0] is a):
            r = self.d_upds(a, b, d)
            if r is not None:
                return r
        if {a.op, b.op} == {"one", "many"} and a.args[0] is b.args[0]:
            return [Mis(True, a, b, "added as one element" if a.op == "one" else "elements added one by one")]
        if rescaled(a, b):
            return [Mis(True, a, b, "values changed")]
        for x, y in ((a, b), (b, a)):
            w = wrapped(x, y)
            if w is not None:
                return [Mis(w, a, b, "operation dropped" if x is a else "operation added")]
        return [self.mis(a, b, "different construction")]

    # -------------------------------------------------------------- decision diagrams
    def dd(self, a, b, d):
        A, B = set(X.dd_atoms(a)), set(X.dd_atoms(b))
        UA, UB = A - B, B - A
        # pair near atoms
        pairs = []
        if UA and UB:
            cand = []
            for x in sorted(UA, key=lambda t: t.dg):
                for y in sorted(UB, key=lambda t: t.dg):
                    ms = self.atom_diff(x, y, d + 1)
                    if ms is not None:
                        sx, sy = self.subs(x), self.subs(y)
                        cand.append((-len(sx & sy) / max(1, len(sx | sy)), len(ms), x, y, ms))
            cand.sort(key=lambda c: (c[1] > 2, c[0], c[1]))
            ux, uy = set(), set()
            for _, _, x, y, ms in cand:
                if x not in ux and y not in uy:
                    ux.add(x)
                    uy.add(y)
                    pairs.append((x, y, ms))
            if pairs:
                m = {x: y for x, y, _ in pairs}
                a2 = rename_atoms(a, m)
                ms = [q for _, _, mm in pairs for q in mm]
                rest = self.dd(a2, b, d + 1) if a2 is not b else []
                return ms + rest
            return [Mis(False, a, b, "tests restructured")]
        out = {}
        count = [0]

        done = set()

        def walk(x, y, cube):
            """False when what was found below depends on the path taken to get here"""
            if x is y or (x, y) in done:
                return True
            count[0] += 1
            if count[0] > 6000:
                out[("budget",)] = Mis(False, a, b, "too many cases")
                return False
            at = X.root_atom(x, y)
            if at is None:
                if not feasible(cube):
                    return False
                sx, sy = under(x, cube), under(y, cube)
                if sx is sy:
                    return False
                k = (sx, sy)
                if k not in out:
                    ms = self.diff(sx, sy, d + 1)
                    if ms:
                        out[k] = (ms, cube)
                return sx is x and sy is y
            full = walk(X.cof(x, at, 1), X.cof(y, at, 1), cube + ((at, True),))
            full &= walk(X.cof(x, at, 0), X.cof(y, at, 0), cube + ((at, False),))
            if full:
                done.add((x, y))
            return full

        walk(a, b, ())
        res = []
        for k, v in out.items():
            if isinstance(v, Mis):
                return [v]
            ms, cube = v
            if set(k) <= {TRUE, FALSE}:
                ctx = " and ".join(("" if val else "not ") + X.show(at, 4) for at, val in cube[:6])
                ms = [Mis(True, m.a, m.b, f"wrong outcome when {ctx}") for m in ms]
            res += ms
        if UA and res:
            # tests not in the specification: definite only over the same vocabulary
            vocab = set(X.subterms(b))
            for u in UA:
                if not self.vocab_ok(u, vocab):
                    return [Mis(False, m.a, m.b, "added test") for m in res]
        if len(res) > 6:
            # many leaf pairs differ: keep a representative only when all definite
            if all(m.definite for m in res):
                res = res[:6]
        return res

    def subs(self, t):
        r = self.smemo.get(t)
        if r is None:
            r = self.smemo[t] = set(X.subterms(t))
        return r

    def vocab_ok(self, u, vocab):
        if u in vocab or u.op == "const":
            return True
        if is_path(u):
            return True
        if u.op in ("lt0", "eq", "in", "truthy", "isinst", "poly", "len", "isclose", "subset", "exists"):
            return all(self.vocab_ok(c, vocab) for c in X.children(u))
        return False

    def atom_diff(self, x, y, d):
        """definite diff list between two tests, or None."""
        if x.op == "lt0" and y.op == "lt0":
            p, q = x.args[0], y.args[0]
            s = X.add2(p, q)
            if X.is_num(s):
                return [Mis(True, x, y, "comparison direction/strictness")]
            dlt = X.add2(p, q, -1)
            if X.is_num(dlt):
                return [Mis(True, x, y, "comparison threshold")]
        if x.op == "eq" and y.op == "lt0" or x.op == "lt0" and y.op == "eq":
            e, l = (x, y) if x.op == "eq" else (y, x)
            dd = X.add2(e.args[0], e.args[1], -1)
            for s in (1, -1):
                if X.is_num(X.add2(dd, l.args[0], s)):
                    return [Mis(True, x, y, "comparison operator")]
        if x.op != y.op and {x.op, y.op} <= {"subset", "eq", "in", "disjoint"} and operands(x) == operands(y):
            return [Mis(True, x, y, "different test of the same values")]
        if x.op != y.op:
            return None
        ms = self.diff(x, y, d)
        if ms and all(m.definite for m in ms) and len(ms) <= 2:
            return ms
        return None

    # -------------------------------------------------------------- per-op
    def pairwise(self, xs, ys, d):
        out = []
        for x, y in zip(xs, ys):
            out += self.diff(x, y, d + 1)
        return out

    def generic(self, a, b, d):
        xa, xb = list(X.children(a)), list(X.children(b))
        na = [x for x in a.args if not isinstance(x, (T, tuple))]
        nb = [x for x in b.args if not isinstance(x, (T, tuple))]
        if na != nb or len(xa) != len(xb):
            return [Mis(False, a, b, "different construction")]
        return self.pairwise(xa, xb, d)

    def d_const(self, a, b, d):
        if falsy(a) and falsy(b):
            return [Mis(X.is_num(a) != X.is_num(b) and FALSE in (a, b), a, b, "constant")]
        return [Mis(True, a, b, "constant")]

    def d_param(self, a, b, d):
        return [Mis(True, a, b, "different parameter")]

    def d_glob(self, a, b, d):
        for s in ANTONYMS:
            if a.args[0] in s and b.args[0] in s:
                return [Mis(True, a, b, "different function")]
        xa, xb = a.args[0], b.args[0]
        if xa.rsplit(".", 1)[-1] == xb.rsplit(".", 1)[-1]:
            return []
        if xa.split(".")[-1].isupper() and xb.split(".")[-1].isupper():
            return [Mis(True, a, b, "different constant")]
        return [Mis(a in self.sub, a, b, "different global")]

    def d_clsobj(self, a, b, d):
        return [Mis(True, a, b, "different class")]

    def d_attr(self, a, b, d):
        if a.args[1] == b.args[1]:
            return self.diff(a.args[0], b.args[0], d + 1)
        if any({a.args[1], b.args[1]} <= s for s in ATTR_EQ):
            return [Mis(False, a, b, "equivalent attribute")]
        if {a.args[1], b.args[1]} == {a.args[1].lstrip("_")} | {"_" + a.args[1].lstrip("_")}:
            return [Mis(False, a, b, "backing attribute")]
        if a.args[0] is b.args[0] or is_path(a) and is_path(b):
            return [Mis(True, a, b, "different attribute")]
        return [self.mis(a, b, "different value")]

    def d_elem(self, a, b, d):
        r = self.diff(a.args[0], b.args[0], d + 1)
        return r or ([Mis(True, a, b, "different loop element")] if a is not b else [])

    d_pos = d_elem

    def d_call(self, a, b, d):
        fa, pa, ka = a.args
        fb, pb, kb = b.args
        out = []
        if fa is not fb:
            if fa.op == "meth" and fb.op == "meth":
                if fa.args[1] != fb.args[1]:
                    return [self.mis(a, b, "different method called")]
                out += self.diff(fa.args[0], fb.args[0], d + 1)
            else:
                out += self.diff(fa, fb, d + 1)
        ka, kb = dict(ka), dict(kb)
        if len(pa) == len(pb) and set(ka) == set(kb):
            out += self.pairwise(pa, pb, d)
            for k in sorted(ka):
                out += self.diff(ka[k], kb[k], d + 1)
            return out
        va, vb = list(pa) + list(ka.values()), list(pb) + list(kb.values())
        if sorted(x.dg for x in va) == sorted(x.dg for x in vb):
            return out
        missing = [x for x in vb if x not in va]
        extra = [x for x in va if x not in vb]
        if missing and not extra:
            return out + [Mis(True, a, b, "argument dropped")]
        if extra and not missing and all(x.op == "const" or is_path(x) for x in extra):
            return out + [Mis(False, a, b, "argument added")]
        return out + [self.mis(a, b, "different arguments")]

    def d_meth(self, a, b, d):
        if a.args[1] != b.args[1]:
            return [Mis(False, a, b, "different method")]
        return self.diff(a.args[0], b.args[0], d + 1)

    def d_new(self, a, b, d):
        if a.args[0] != b.args[0]:
            return [Mis(True, a, b, "different class constructed")]
        ka, kb = dict(a.args[1]), dict(b.args[1])
        out = []
        for k in sorted(set(ka) | set(kb)):
            if k not in ka:
                out.append(Mis(not falsy(kb[k]), a, b, f"argument {k} missing"))
            elif k not in kb:
                out.append(Mis(False, a, b, f"argument {k} added"))
            else:
                out += self.diff(ka[k], kb[k], d + 1)
        return out

    def d_poly(self, a, b, d):
        pa, pb = X._poly_items(a), X._poly_items(b)
        ats = lambda p: {x for m in p for x, _ in m}
        A, B = ats(pa), ats(pb)
        UA, UB = A - B, B - A
        if not UA and not UB:
            return [Mis(True, a, b, "arithmetic")]
        if not UA or not UB:
            if UB and not UA:  # operand dropped
                return [Mis(True, a, b, "operand dropped")]
            if all(is_path(x) or x.op in ("len", "abs") for x in UA):
                return [Mis(True, a, b, "operand added")]
            return [self.mis(a, b, "operand added")]
        if len(UA) == len(UB) == 1:
            x, y = UA.pop(), UB.pop()
            ms = self.diff(x, y, d + 1)
            if not ms:  # equal modulo theory
                return []
            a2 = X.subst(a, {x: y})
            if a2 is not b:
                ms = ms + ([Mis(all(m.definite for m in ms), a, b, "arithmetic")] if set(map(id, [a2])) else [])
            return ms
        if len(UA) == len(UB) <= 3:
            xs, ys = sorted(UA, key=lambda t: (t.op, t.dg)), sorted(UB, key=lambda t: (t.op, t.dg))
            used, out, m = set(), [], {}
            for x in xs:
                best = None
                for y in ys:
                    if y in used:
                        continue
                    ms = self.diff(x, y, d + 1)
                    if all(q.definite for q in ms) and (best is None or len(ms) < len(best[1])):
                        best = (y, ms)
                if best is None:
                    return [self.mis(a, b, "different operands")]
                used.add(best[0])
                m[x] = best[0]
                out += best[1]
            if X.subst(a, m) is b:
                return out
            return out + [self.mis(a, b, "arithmetic")]
        return [self.mis(a, b, "different operands")]

    def d_lt0(self, a, b, d):
        r = self.atom_diff_lt(a, b)
        return r if r is not None else self.diff(a.args[0], b.args[0], d + 1)

    def atom_diff_lt(self, x, y):
        p, q = x.args[0], y.args[0]
        if X.is_num(X.add2(p, q)):
            return [Mis(True, x, y, "comparison direction/strictness")]
        if X.is_num(X.add2(p, q, -1)):
            return [Mis(True, x, y, "comparison threshold")]
        return None

    def d_eq(self, a, b, d):
        (a0, a1), (b0, b1) = a.args, b.args
        for x0, x1 in ((a0, a1), (a1, a0)):
            for y0, y1 in ((b0, b1), (b1, b0)):
                if x0 is y0:
                    return self.diff(x1, y1, d + 1)
        r1 = self.diff(a0, b0, d + 1) + self.diff(a1, b1, d + 1)
        r2 = self.diff(a0, b1, d + 1) + self.diff(a1, b0, d + 1)
        d1, d2 = all(m.definite for m in r1), all(m.definite for m in r2)
        if not r1 or not r2:
            return []
        if d1 and d2:
            return min(r1, r2, key=len)
        return [self.mis(a, b, "different test")]

    def d_isclose(self, a, b, d):
        if a.args[2] is not b.args[2] and a.args[2] != b.args[2]:
            if dict(b.args[2]) and not dict(a.args[2]):
                return [Mis(True, a, b, "tolerance dropped")]
            ka, kb = dict(a.args[2]), dict(b.args[2])
            if set(ka) == set(kb):
                return [m for k in ka for m in self.diff(ka[k], kb[k], d + 1)]
            ks = set(ka) ^ set(kb)
            num = lambda k: [z[k].args[0] for z in (ka, kb) if k in z and X.is_num(z[k])]
            if all(num(k) and not any(DEFAULT_TOL.get(k, 0) / 10 <= v <= DEFAULT_TOL.get(k, 0) * 10 for v in num(k)) for k in ks):
                return [Mis(True, a, b, "tolerance changed")]
            return [Mis(False, a, b, "tolerance")]
        return self.d_eq(mk("eq", *a.args[:2]), mk("eq", *b.args[:2]), d)

    def d_comp(self, a, b, d):
        out = []
        if a.args[0] != b.args[0]:
            out.append(Mis(False, a, b, "different collection kind"))
        return out + self.loopish(a.args[1], a.args[2], b.args[1], b.args[2], d)

    def loopish(self, da, xa, db, xb, d):
        if da is not db:
            xa2 = X.subst(xa, {mk("elem", strip_until(da), i): mk("elem", strip_until(db), i) for i in (0, 1)}
                          | {mk("pos", strip_until(da), i): mk("pos", strip_until(db), i) for i in (0, 1)})
            return self.diff(da, db, d + 1) + self.diff(xa2, xb, d + 1)
        return self.diff(xa, xb, d + 1)

    def d_exists(self, a, b, d):
        return self.loopish(a.args[0], a.args[1], b.args[0], b.args[1], d)

    def d_first(self, a, b, d):
        r = self.loopish(a.args[0], a.args[1], b.args[0], b.args[1], d)
        return r + self.loopish(a.args[0], a.args[2], b.args[0], b.args[2], d)

    def d_fold(self, a, b, d):
        if len(a.args[1]) != len(b.args[1]):
            return [Mis(False, a, b, "different loop state")]
        n = len(a.args[1])
        if 3 <= n <= 5:
            # the numbering of the secondary loop values is arbitrary
            best = None
            for q in itertools.permutations(range(1, n)):
                q = (0, *q)
                ren = {mk("acc", i): mk("acc", j) for i, j in enumerate(q) if i != j}
                a2 = a if not ren else mk("fold", X.subst(a.args[0], ren), tuple(a.args[1][q.index(k)] for k in range(n)),
                                          tuple(X.subst(a.args[2][q.index(k)], ren) for k in range(n)))
                if a2 is b:
                    return []
                r = self.fold_pair(a2, b, d)
                sc = (len(r), all(m.definite for m in r))
                if best is None or sc < best[0]:
                    best = (sc, r)
            return best[1]
        return self.fold_pair(a, b, d)

    def fold_pair(self, a, b, d):
        out = self.diff(a.args[0], b.args[0], d + 1)
        if out and a.args[0] is not b.args[0]:
            sub = {mk("elem", strip_until(a.args[0]), i): mk("elem", strip_until(b.args[0]), i) for i in (0, 1)}
        else:
            sub = {}
        out += self.pairwise(a.args[1], b.args[1], d)
        for x, y in zip(a.args[2], b.args[2]):
            out += self.diff(X.subst(x, sub) if sub else x, y, d + 1)
        return out

    def d_seq(self, a, b, d):
        pa, pb = a.args[0], b.args[0]
        if len(pa) == len(pb):
            return self.pairwise(pa, pb, d)
        if not pa or not pb:
            return [Mis(True, a, b, "element skipped" if not pa else "element not skipped")]
        if all(x in pb for x in pa):
            return [Mis(True, a, b, "element dropped")]
        if all(x in pa for x in pb):
            return [Mis(True, a, b, "element duplicated/added")]
        return [self.mis(a, b, "different elements")]

    def d_list(self, a, b, d):
        xa, xb = a.args[0], b.args[0]
        if len(xa) == len(xb):
            return self.pairwise(xa, xb, d)
        if all(x in xb for x in xa) and len(xa) < len(xb):
            return [Mis(True, a, b, "item dropped")]
        if all(x in xa for x in xb):
            return [Mis(True, a, b, "item added")]
        return [self.mis(a, b, "different items")]

    d_tuple = d_list

    def d_setlit(self, a, b, d):
        xa, xb = set(a.args[0]), set(b.args[0])
        ua, ub = xa - xb, xb - xa
        if not ua or not ub:
            return [Mis(True, a, b, "set item dropped/added")]
        if len(ua) == len(ub) == 1:
            return self.diff(ua.pop(), ub.pop(), d + 1)
        return [self.mis(a, b, "different set items")]

    def d_concat(self, a, b, d):
        pa, pb = a.args[0], b.args[0]
        if len(pa) == len(pb):
            if sorted(x.dg for x in pa) == sorted(x.dg for x in pb):
                return [Mis(True, a, b, "concatenation order")]
            return self.pairwise(pa, pb, d)
        if all(x in pb for x in pa) and len(pa) < len(pb):
            return [Mis(True, a, b, "part dropped")]
        if all(x in pa for x in pb):
            return [Mis(True, a, b, "part added")]
        return [self.mis(a, b, "different parts")]

    def d_fmt(self, a, b, d):
        pa, pb = a.args[0], b.args[0]
        if len(pa) == len(pb) and all((x.op == "const") == (y.op == "const") for x, y in zip(pa, pb)):
            return self.pairwise([x for x in pa if x.op != "const"], [y for y in pb if y.op != "const"], d) + [
                Mis(False, x, y, "text") for x, y in zip(pa, pb) if x.op == "const" and x is not y]
        va, vb = [x for x in pa if x.op != "const"], [y for y in pb if y.op != "const"]
        if len(va) < len(vb) and all(x in vb for x in va):
            return [Mis(True, a, b, "part of the text dropped")]
        return [Mis(False, a, b, "text")]

    def d_fmtspec(self, a, b, d):
        r = self.diff(a.args[0], b.args[0], d + 1)
        return r or [Mis(a.args[1] != b.args[1] and bool(b.args[1]), a, b, "different format")]

    def d_setop(self, a, b, d):
        ka, pa = a.args
        kb, pb = b.args
        if ka != kb:
            if set(pa) == set(pb):
                return [Mis(True, a, b, "different set operation")]
            return [self.mis(a, b, "different set operation")]
        if ka == "diff":
            if pa == tuple(reversed(pb)):
                return [Mis(True, a, b, "set difference reversed")]
            return self.pairwise(pa, pb, d)
        ua, ub = [x for x in pa if x not in pb], [x for x in pb if x not in pa]
        if not ua or not ub:
            return [Mis(True, a, b, "set operand dropped/added")]
        if len(ua) == len(ub) == 1:
            return self.diff(ua[0], ub[0], d + 1)
        return [self.mis(a, b, "different set operands")]

    def d_subset(self, a, b, d):
        if a.args == tuple(reversed(b.args)):
            return [Mis(True, a, b, "subset test reversed")]
        return self.pairwise(a.args, b.args, d)

    def d_dict(self, a, b, d):
        if all(k.op == "const" for k, _ in a.args[0] + b.args[0]):
            ka, kb = dict(a.args[0]), dict(b.args[0])
            out = []
            for k in kb:
                if k not in ka:
                    out.append(Mis(True, a, b, f"key {X.show(k)} missing"))
                else:
                    out += self.diff(ka[k], kb[k], d + 1)
            if set(ka) - set(kb):
                out.append(Mis(False, a, b, "key added"))
            return out
        if len(a.args[0]) == len(b.args[0]):
            out = []
            for (k1, v1), (k2, v2) in zip(a.args[0], b.args[0]):
                out += self.diff(k1, k2, d + 1) + self.diff(v1, v2, d + 1)
            return out
        return [self.mis(a, b, "different mapping")]

    def d_until(self, a, b, d):
        r = self.diff(a.args[0], b.args[0], d + 1)
        return r + self.diff(a.args[1], b.args[1], d + 1)

    def d_truthy(self, a, b, d):
        return self.diff(a.args[0], b.args[0], d + 1)

    def d_slice(self, a, b, d):
        return self.pairwise(a.args, b.args, d)

    def d_lambda(self, a, b, d):
        return self.diff(a.args[1], b.args[1], d + 1)

    def d_sorted(self, a, b, d):
        return self.pairwise(a.args, b.args, d)

    def d_upds(self, a, b, d):
        """chains of updates at constant keys, compared key by key"""
        ba, ka = upd_chain(a)
        bb, kb = upd_chain(b)
        if ka is None or kb is None:
            return None
        out = self.diff(ba, bb, d + 1)
        for k in sorted(set(ka) | set(kb), key=lambda t: t.dg):
            x, y = ka.get(k), kb.get(k)
            if x is None:
                out.append(Mis(True, a, b, f"update of {X.show(k)} dropped"))
            elif y is None:
                out.append(Mis(False, a, b, f"update of {X.show(k)} added"))
            elif len(x) != len(y):
                out.append(Mis(True, a, b, f"update of {X.show(k)} lost or repeated"))
            else:
                for (o1, v1), (o2, v2) in zip(x, y):
                    if o1 != o2:
                        out.append(Mis(False, a, b, f"different update of {X.show(k)}"))
                    else:
                        out += self.diff(v1, v2, d + 1)
        return out

    def d_kappend(self, a, b, d):
        r = self.d_upds(a, b, d)
        return self.generic(a, b, d) if r is None else r

    def d_kap(self, a, b, d):
        (k1, v1), (k2, v2) = a.args, b.args
        out = self.diff(k1, k2, d + 1)
        if v1.op != v2.op:
            return out + [Mis(True, a, b, "appended as one element instead of spread (or conversely)")]
        return out + self.diff(v1, v2, d + 1)

    def d_dictupd(self, a, b, d):
        r = self.d_upds(a, b, d)
        if r is not None:
            return r
        if a.args[1] is b.args[1]:
            return self.diff(a.args[0], b.args[0], d + 1) + self.diff(a.args[2], b.args[2], d + 1)
        return self.generic(a, b, d)

    def d_exc(self, a, b, d):
        return [Mis(False, a, b, "exception handling")]


DEFAULT_TOL = {"rtol": 1e-5, "atol": 1e-8, "rel_tol": 1e-9, "abs_tol": 0}
UPDS = {"dictupd", "kappend"}


def upd_chain(t):
    ks = {}
    while t.op in UPDS:
        k = t.args[1]
        if k.op != "const":
            return t, None
        ks.setdefault(k, []).insert(0, (t.op, t.args[2]))
        t = t.args[0]
    return t, ks


LOOPISH = {"comp", "fold", "first", "last", "until", "exists", "lv", "lambda", "loopid", "star", "cur", "undef", "exc", "lam", "acc", "fmt", "glob", "param"}


def symbols(t):
    if t.op == "attr":
        return {"." + t.args[1]}
    if t.op == "meth":
        return {"." + t.args[1] + "()"}
    if t.op == "glob":
        return {t.args[0].rsplit(".", 1)[-1]}
    if t.op == "new":
        return {"new " + t.args[0]}
    if t.op in ("ite", "poly", "const", "tuple", "list", "seq", "one", "many", "kap", "idx", "elem", "pos", "eq", "lt0", "in", "truthy", "isinst", "call"):
        return set()
    return {t.op}


def operands(t):
    return frozenset(y.args[0] if y.op == "toset" else y for y in t.args if isinstance(y, T))


def strip_until(d):
    return d.args[0] if d.op == "until" else d


def rename_atoms(t, m):
    if t.op != "ite":
        return t
    at = m.get(t.args[0], t.args[0])
    return X.ite(X.atom(at), rename_atoms(t.args[1], m), rename_atoms(t.args[2], m))


def falsy(t):
    return t.op == "emptyish" or (t.op == "const" and not t.args[0]) or (t.op in ("list", "dict", "setlit", "tuple") and not t.args[0])


def wrapped(a, b):
    """Is a (small) sub-term of b?  True: definite, False: benign wrapper, None: no."""
    if b.op == "fold" and a in b.args[1]:
        return True  # the loop that changes the value is missing
    st = [(b, 0, False)]
    seen = 0
    while st:
        x, d, benign = st.pop()
        seen += 1
        if seen > 60:
            return None
        if x is a and d:
            return not benign
        if d < 3:
            bn = benign or x.op in BENIGN_WRAP or identityish(x)
            for c in X.children(x):
                st.append((c, d + 1, bn))
    return None


def rescaled(a, b):
    """a maps every key of b to an arithmetic expression of its value"""
    if a.op != "comp" or a.args[1] is not b or not is_path(b):
        return False
    l = a.args[2]
    if l.op != "seq" or len(l.args[0]) != 1 or l.args[0][0].op != "one":
        return False
    v = l.args[0][0].args[0]
    return v.op == "tuple" and len(v.args[0]) == 2 and v.args[0][1].op == "poly" and v.args[0][0].op == "elem"


def identityish(x):
    if x.op != "call":
        return False
    f = x.args[0]
    if f.op == "glob":
        return f.args[0].rsplit(".", 1)[-1] in {
            "Composition", "Element", "float", "array", "asarray", "copy", "deepcopy", "list", "tuple", "dict", "set", "frozenset",
            "str", "int", "bool", "squeeze", "put", "get", "tqdm", "cast", "OrderedDict", "deque", "ravel"}
    return f.op not in ("meth",)


def feasible(cube):
    """cheap consistency of a set of literals (None-ness vs truth, distinct constants, signs)."""
    pos = [a for a, v in cube if v]
    neg = [a for a, v in cube if not v]
    eqs = {}
    for a in pos:
        if a.op == "eq":
            for x, y in (a.args, a.args[::-1]):
                if y.op == "const":
                    if x in eqs and eqs[x] is not y:
                        return False
                    eqs[x] = y
    for a in pos:
        if a.op == "truthy" and a.args[0] in eqs and falsy(eqs[a.args[0]]):
            return False
        if a.op == "exists" and any(n.op == "truthy" and n.args[0] is strip_until(a.args[0]) for n in neg):
            return False
        if a.op in ("isinst", "in", "hasattr") and False:
            return False
    for n in neg:
        if n.op == "truthy" and n.args[0] in eqs and not falsy(eqs[n.args[0]]):
            return False
    absent = {}
    for n in neg:
        if n.op == "in" and n.args[0].op == "elem":
            absent.setdefault(n.args[0], set()).add(strip_keys(n.args[1]))
    for e, out in absent.items():
        if all(p in out for p in parts_of(e.args[0])):
            return False
    lts = [(a.args[0], True) for a in pos if a.op == "lt0"]
    for i in range(len(lts)):
        for j in range(i):
            if X.is_num(X.add2(lts[i][0], lts[j][0])):
                s = X.add2(lts[i][0], lts[j][0]).args[0]
                if s >= 0:
                    return False
    nlts = [n.args[0] for n in neg if n.op == "lt0"]
    for p, _ in lts:
        for q in nlts:
            dl = X.add2(p, q, -1)  # p<0, q>=0 ; p-q = c => p = q + c >= c ; infeasible if c >= 0
            if X.is_num(dl) and dl.args[0] >= 0:
                return False
    for a in pos:
        if a.op == "eq":
            dlt = None
            if all(X.is_numlike(z) or is_path(z) for z in a.args):
                dlt = X.add2(a.args[0], a.args[1], -1)
            if dlt is not None:
                for p, _ in lts:
                    for s in (1, -1):
                        r = X.add2(p, dlt, s)
                        if X.is_num(r) and r.args[0] >= 0:
                            return False
                for q in nlts:
                    for s in (1, -1):
                        r = X.add2(q, dlt, s)
                        if X.is_num(r) and r.args[0] < 0:
                            return False
    return True


def strip_keys(t):
    while t.op in ("keys", "toset", "sorted", "tolist", "until") and t.args:
        t = t.args[0]
    return t


def parts_of(d):
    """collections of which every element of d is a member of at least one"""
    d = strip_keys(d)
    if d.op == "concat":
        return [q for p in d.args[0] for q in parts_of(p)]
    if d.op == "poly":
        mons = list(X._poly_items(d).items())
        if all(c == 1 and len(m) == 1 and m[0][1] == 1 for m, c in mons):
            return [q for m, _ in mons for q in parts_of(m[0][0])]
    if d.op == "setop" and d.args[0] == "union":
        return [q for p in d.args[1] for q in parts_of(p)]
    return [d]


def under(t, cube):
    """simplify a leaf under the literals of a cube: empty domains, known equalities."""
    m = {}
    for a, v in cube:
        if a.op == "truthy" and not v:
            m[a.args[0]] = mk("emptyish")
        if a.op == "eq" and v:
            x, y = a.args
            if y.op == "const":
                m[x] = y
            elif x.op == "const":
                m[y] = x
        if a.op == "exists" and not v:
            m[("ex", a)] = None
    ex = [k[1] for k in m if isinstance(k, tuple)]
    m = {k: v for k, v in m.items() if not isinstance(k, tuple)}
    dec = dict(cube)
    if not m and not ex and not (dec and any(u.op == "ite" and u.args[0] in dec for u in X.subterms(t))):
        return t
    if not ex:
        sub = SUBS.get(t)
        if sub is None:
            if len(SUBS) > 4000:
                SUBS.clear()
            sub = SUBS[t] = set(X.subterms(t))
        dec = {a: v for a, v in dec.items() if a in sub}
        if not dec and not any(k in sub for k in m):
            return t
    m["dec"] = dec
    memo = {}
    m["memos"] = {frozenset(dec): memo}
    return simp(t, m, ex, memo)


SUBS = {}


def bound_by(a, dom):
    return any(x.op in ("elem", "pos") and x.args[0] is dom for x in X.marks(a))


def simp(t, m, ex, memo):
    if t in memo:
        return memo[t]
    WORK[0] -= 1
    if WORK[0] < 0:
        return t
    r = t
    dec = m["dec"]
    if t.op == "ite" and t.args[0] in dec:
        r = simp(t.args[1] if dec[t.args[0]] else t.args[2], m, ex, memo)
        memo[t] = r
        return r
    if dec and t.op in ("comp", "fold", "exists", "first", "last"):
        d = t.args[1] if t.op == "comp" else t.args[0]
        if any(bound_by(a, d) for a in dec):
            dec = {a: v for a, v in dec.items() if not bound_by(a, d)}
            m = {**m, "dec": dec}
            memo = m["memos"].setdefault(frozenset(dec), {})
    if t.op == "comp":
        d = strip_until(t.args[1])
        if d in m and falsy(m[d]):
            r = X.empty(t.args[0])
        elif any(e.args[0] is t.args[1] and X.b_and(X.body_pred(t.args[2]), X.b_not(e.args[1])) is FALSE for e in ex):
            r = X.empty(t.args[0])
    elif t.op == "fold":
        d = strip_until(t.args[0])
        if d in m and falsy(m[d]):
            r = t.args[1][0]
    if r is t and t.args and t.op not in ("const",):
        ch = tuple(_simp_arg(a, m, ex, memo) for a in t.args)
        if ch != t.args:
            r = X.rebuild(t.op, ch)
    if r.op in ("toset", "sorted", "tolist", "keys", "items", "values", "reversed") and r.args[0].op == "emptyish":
        r = r.args[0]
    if r in m and m[r].op in ("const", "emptyish"):
        r = m[r]
    memo[t] = r
    return r


def _simp_arg(a, m, ex, memo):
    if isinstance(a, T):
        return simp(a, m, ex, memo)
    if isinstance(a, tuple):
        return tuple(_simp_arg(x, m, ex, memo) for x in a)
    return a
