"""Saving and loading (as_dict / from_dict / constructor arguments)."""
import ast
import importlib

from ..check import HOLD, INC, VIOL, effects
from .. import lint
from ..model import Cls
from .. import terms as X

META = {
    "title": "Saving and loading an object rebuilds it from the same values",
    "statement": (
        "Every savable class keeps each constructor argument under its own name (or in its own as_dict and from_dict), changed "
        "only in ways that leave an already stored value alone, so an object that is saved and loaded is rebuilt from the values "
        "it had. Entries keep composition, energies, temperature, adjustments and data; open reactions their chemical potentials; "
        "networks also precursors, target and graph; interface hulls do not save the end points they add themselves. "
        "Saving does not change the object saved."
    ),
    "over": ["inputs", "configurations"],
    "quant": "every savable class, constructor argument and history of the object",
    "why": "tests save and load one fixture per class, mostly with default options, and compare a few attributes",
    "files": ["src/rxn_network/network/base.py", "src/rxn_network/network/entry.py", "src/rxn_network/reactions/open.py",
              "src/rxn_network/reactions/hull.py", "src/rxn_network/entries/gibbs.py", "src/rxn_network/entries/experimental.py",
              "src/rxn_network/entries/entry_set.py", "src/rxn_network/reactions/reaction_set.py", "src/rxn_network/pathways/pathway_set.py"],
    "mech": [("argument kept under its name", "__init__ of every class derived from MSONable"),
             ("own format", "as_dict/from_dict of Network, Graph, NetworkEntry, OpenComputedReaction, InterfaceReactionHull, GibbsComputedEntry, "
              "ExperimentalReferenceEntry, GibbsEntrySet")],
}
FLOOR = 120
SAVING = {"__init__", "as_dict", "from_dict", "_sanitize_data"}
SHARED = ("c01", "c03", "c06", "c07", "c09", "c10", "c12", "c13", "c14", "c15", "c16", "c18", "c21", "c23", "c24")


class Only:
    """the obligations of another rule set that concern constructors, as_dict and from_dict"""

    def __init__(self, ctx):
        self.ctx = ctx

    def spec(self, rule, cls, name, src, **kw):
        self.ctx.refsig.setdefault(name, [])
        if name in SAVING:
            self.ctx.spec("saved", cls, name, src, **kw)

    def guard(self, rule, construct, fn):
        return None

    add = holds = same = lambda self, *a, **k: None

    def __getattr__(self, a):
        return getattr(self.ctx, a)


def savable(ctx):
    for n, c in sorted(ctx.p.by_cls.items()):
        mro = ctx.p.mro(c)
        names = [k if isinstance(k, str) else k.name for k in mro]
        if not any(str(x).endswith("MSONable") for x in names):
            continue
        if any(f.is_abstract for k in mro if isinstance(k, Cls) for m in k.members for f in [ctx.p.find(c, m)] if f):
            continue
        yield n, c


def kept(ctx, n, c):
    """each constructor argument is there again, under its name, when the object is saved"""
    init = ctx.p.find(c, "__init__")
    ps, kwargs, varargs = ctx.e0.ctor_params(c)
    if ctx.p.find(c, "from_dict") is not None and not ps:
        ctx.add("kept", n, HOLD, f=init)
        return
    st = ctx.e0.ctor_store(c)
    res = ctx.e0.run(init, c) if init is not None else None
    dynamic = res is not None and any(e.kind == "call" and "setattr" in X.show(e.data[0], 3) for e in res.events)
    for q, _, _ in ps or []:
        names = [a for a in (q, "_" + q) if a in st]
        prop = ctx.p.find(c, q)
        if prop is not None and prop.is_prop:
            ctx.add("kept", f"{n}({q})", HOLD, f=init)  # its value has its own obligations
        elif names:
            v = st[names[0]]
            if mentions(v, q):
                ctx.add("kept", f"{n}({q})", HOLD, f=init)
            else:
                has_unk = any(x.op in ("unk", "unknown", "ref") for x in X.subterms(v))
                ctx.add("kept", f"{n}({q})", INC if has_unk else VIOL, f"attribute {names[0]} does not depend on the argument {q}, so it is lost on saving", init)
        elif any(q in k.attrs or "_" + q in k.attrs or q in k.anns for k in ctx.p.mro(c) if isinstance(k, Cls)):
            ctx.add("kept", f"{n}({q})", INC, "class attribute", init)
        elif dynamic:
            ctx.add("kept", f"{n}({q})", INC, "set dynamically", init)
        elif ctx.p.find(c, "as_dict") is not None or external_base(ctx, c):
            ctx.add("kept", f"{n}({q})", INC, "has its own format", init)
        else:
            ctx.add("kept", f"{n}({q})", VIOL, f"neither {q} nor _{q} is set: the object cannot be saved", init)


def external_base(ctx, c):
    return any(not isinstance(k, Cls) and str(k).split(".")[-1] not in ("MSONable", "object", "MutableSet", "ABC") for k in ctx.p.mro(c))


def mentions(t, q):
    return any(x.op == "param" and x.args[0] == q for x in X.subterms(t))


def rules(ctx):
    for n, c in savable(ctx):
        ctx.guard("kept", n, lambda n=n, c=c: kept(ctx, n, c))
        ctx.guard("binds", n, lambda n=n, c=c: lint.binds(ctx, "binds", n, c, "from_dict"))
        ctx.guard("purity", n, lambda n=n, c=c: intact(ctx, n, c))
    only = Only(ctx)
    for m in SHARED:
        mod = importlib.import_module("rxnsa.rules." + m)
        ctx.guard("saved", m, lambda mod=mod: mod.rules(only))
    O = "OpenComputedReaction"
    ctx.spec("open", O, "as_dict", """
def f(self):
    d = super().as_dict()
    d["chempots"] = {el.symbol: u for el, u in self.chempots.items()}
    return d
""")
    ctx.spec("open", O, "from_dict", """
def f(cls, d):
    return super().from_dict({**d, "chempots": {Element(s): u for s, u in d["chempots"].items()}})
""")
    ctx.spec("open", "DummyEntry", "from_dict", "def f(cls, d):\n    return cls()")
    for c, a, src in (("BasicReaction", "compositions", "return self._compositions"), ("BasicReaction", "coefficients", "return self._coefficients"),
                      ("ComputedReaction", "entries", "return self._entries"), ("BasicPathway", "reactions", "return self._reactions"),
                      ("NetworkEntry", "entries", "return self._entries"), ("NetworkEntry", "description", "return self._description"),
                      ("Network", "precursors", "return self._precursors"), ("Network", "target", "return self._target"), ("Network", "graph", "return self._g"),
                      ("CarbonateCorrection", "num_ions", "return self._num_ions"), ("CarbonateCorrection", "carbonate_correction", "return self._carbonate_correction"),
                      ("CarbonDioxideAtmosphericCorrection", "temp", "return self._temp"), ("CarbonDioxideAtmosphericCorrection", "pco2", "return self._pco2"),
                      ("Solver", "pathways", "return self._pathways"), ("PathwaySolver", "entries", "return self._entries"),
                      ("ExperimentalReferenceEntry", "temperature", "return self._temperature")):
        ctx.spec("kept", c, a, f"def f(self):\n    {src}", construct=f"{c}.{a}")
    P = "PathwayPlotter"
    for a in ("phase_amounts", "temps", "apply_smoothing"):
        ctx.spec("kept", P, "__init__", f"def f(self, phase_amounts, temps, apply_smoothing=True):\n    self._{a} = {a}", what=f"store:_{a}", construct=f"{P}._{a}")
    ctx.spec("purity", "GibbsComputedEntry", "_sanitize_data", """
def f(data):
    out = {}
    for k, v in data.items():
        if isinstance(v, dict):
            v = {(str(a) if isinstance(a, Element) else a): b for a, b in v.items()}
        out[k] = v
    return out
""")
    for c in ("Network", "OpenComputedReaction", "InterfaceReactionHull", "ExperimentalReferenceEntry", "GibbsEntrySet", "NetworkEntry", "Graph"):
        ctx.guard("purity", c, lambda c=c: pure(ctx, c))
    ctx.guard("purity", "failure", lambda: restored(ctx))


def pure(ctx, c):
    """as_dict changes nothing the object can reach"""
    f, k = ctx.target(c, "as_dict")
    res = ctx.e0.run(f, k)
    bad = [e for e in res.events if e.kind in ("setattr", "mut")
           and not (e.kind == "mut" and fresh(e.data[1] if e.data[0].op == "const" else e.data[0]))]
    ctx.add("purity", f"{c}.as_dict", VIOL if bad and all(e.kind == "setattr" or owned(e) for e in bad) else INC if bad else HOLD,
            "changes " + "; ".join(X.show(mk_t(e), 4) for e in bad[:2]), f)


def intact(ctx, n, c):
    """from_dict leaves the dictionary it is given as it is"""
    f = ctx.p.find(c, "from_dict")
    if f is None:
        return
    res = ctx.e0.run(f, c)
    d = [x.arg for x in f.node.args.args][-1]
    bad = [e for e in res.events if e.kind == "mut" for r in [root(e.data[1] if e.data[0].op == "const" else e.data[0])] if r.op == "param" and r.args[0] == d]
    ctx.add("purity", f"{n}.from_dict", VIOL if bad else HOLD, "changes the dictionary it loads: " + "; ".join(X.show(mk_t(e), 4) for e in bad[:2]), f)


def restored(ctx):
    """an attribute changed while saving is set back even when saving fails (in a finally block)"""
    for n, c in sorted(ctx.p.by_cls.items()):
        f = c.members.get("as_dict")
        if f is None:
            continue
        body = f.node.body
        bad = None
        for i, s in enumerate(body):
            for a in sets(s):
                tries = [t for t in body[i + 1:] if isinstance(t, ast.Try) and any(a in sets(x) for x in t.finalbody)]
                for t in body[i + 1:]:
                    if t in tries:
                        break
                    if any(isinstance(x, ast.Call) for x in ast.walk(t)):
                        bad = a
                        break
        ctx.holds("purity", f"{n}.as_dict:failure", bad is None, f"self.{bad} stays changed when saving fails", f)


def sets(s):
    return {t.attr for t in getattr(s, "targets", []) if isinstance(s, ast.Assign) and isinstance(t, ast.Attribute)
            and isinstance(t.value, ast.Name) and t.value.id == "self"}


def mk_t(e):
    return X.mk("tuple", tuple(x for x in e.data[:3] if isinstance(x, X.T)))


def root(t):
    while t.op in ("attr", "idx", "elem", "items", "values", "upd") and t.args and isinstance(t.args[0], X.T):
        t = t.args[0]
    return t


def owned(e):
    return root(e.data[1] if e.data[0].op == "const" else e.data[0]).op in ("self", "param")


def fresh(t):
    """a value produced inside the function (the dictionary of super().as_dict())"""
    return root(t).op in ("call", "dict", "list", "new", "comp", "ref", "set")
