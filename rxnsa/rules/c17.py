"""Equality and hashing of reactions and entries."""

META = {
    "title": "Equality and hashing of reactions and entries agree and identify them correctly",
    "statement": (
        "Two reactions are equal exactly when they consume and form the same phases with the same coefficient for every phase "
        "(within numerical tolerance) and, for reactions built from entries, have the same energy per atom; any other object is "
        "not equal and comparing with it does not raise. Two computed or interpolated entries are equal only if they are of the "
        "same class with the same energy (and temperature) and the same identifier, or, without identifiers, the same "
        "composition; experimental reference entries are equal if they are of the same class with the same formula, temperature "
        "and correction. Objects that compare equal have equal hashes, so sets and dictionaries never hold two equal objects."
    ),
    "over": ["inputs"],
    "quant": "every pair of reactions of any kind and every pair of entries",
    "why": "tests compare two or three fixtures; hash agreement must hold for all pairs",
    "files": ["src/rxn_network/reactions/basic.py", "src/rxn_network/reactions/computed.py", "src/rxn_network/entries/gibbs.py",
              "src/rxn_network/entries/interpolated.py", "src/rxn_network/entries/experimental.py"],
    "mech": [("reactions", "BasicReaction.__eq__, __hash__; ComputedReaction.__eq__, __hash__"),
             ("entries", "GibbsComputedEntry, InterpolatedEntry, ExperimentalReferenceEntry: __eq__, __hash__")],
}
FLOOR = 6

SIDES = """all(np.isclose(k, o[c]) for m, o in ((self.reactant_coeffs, other.reactant_coeffs),
        (self.product_coeffs, other.product_coeffs)) for c, k in m.items())"""

SPLIT = """(all(np.isclose(k, other.reactant_coeffs[c]) for c, k in self.reactant_coeffs.items())
        and all(np.isclose(k, other.product_coeffs[c]) for c, k in self.product_coeffs.items()))"""

EQ = """
def f(self, other):
    if self is other:
        return True
    if not isinstance(other, BasicReaction):
        return False
    if not self.chemical_system == other.chemical_system:
        return False
    if not len(self.products) == len(other.products):
        return False
    if not len(self.reactants) == len(other.reactants):
        return False
    if not np.allclose(sorted(self.coefficients), sorted(other.coefficients)):
        return False
    if not set(self.reactants) == set(other.reactants):
        return False
    if not set(self.products) == set(other.products):
        return False
    return %s
""" % SIDES

DROP = {
    "sorted": "    if not np.allclose(sorted(self.coefficients), sorted(other.coefficients)):\n        return False\n",
    "np": "    if not len(self.products) == len(other.products):\n        return False\n",
    "nr": "    if not len(self.reactants) == len(other.reactants):\n        return False\n",
    "cs": "    if not self.chemical_system == other.chemical_system:\n        return False\n",
}


def variants(src):
    """The reference without any of the tests that the remaining ones imply."""
    import itertools

    out = []
    for n in range(1, len(DROP) + 1):
        for sub in itertools.combinations(DROP.values(), n):
            t = src
            for x in sub:
                t = t.replace(x, "")
            out.append(t)
    return out


def rules(ctx):
    from .. import lint

    lint.float_store(ctx, "reactions", "BasicReaction", "__init__", "_coefficients")
    alts = variants(EQ) + variants(EQ.replace(SIDES, SPLIT))
    ctx.spec("reactions", "BasicReaction", "__eq__", EQ, alts=alts)
    ceq = """
def f(self, other):
    if not isinstance(other, ComputedReaction):
        return False
    if BasicReaction.__eq__(self, other):
        return np.isclose(self.energy_per_atom, other.energy_per_atom)
    return False
"""
    ctx.spec("reactions", "ComputedReaction", "__eq__", ceq, opaque=("__eq__",))
    ok = "(self.chemical_system, frozenset(self.reactants), frozenset(self.products), len(self.reactants), len(self.products))"
    for c in ("BasicReaction", "ComputedReaction"):
        hashed(ctx, c, ok)
    for c in ("OpenComputedReaction", "InterfaceReactionHull"):
        ctx.guard("inherited", c, lambda c=c: inherited(ctx, c))
    ctx.spec("entries", "GibbsComputedEntry", "__eq__", """
def f(self, other):
    if type(other) is not type(self):
        return False
    if not np.isclose(self.temperature, other.temperature):
        return False
    if not np.isclose(self.energy, other.energy):
        return False
    if getattr(self, "entry_id", None) and getattr(other, "entry_id", None):
        return self.entry_id == other.entry_id
    return not self.composition != other.composition
""")
    ctx.spec("entries", "InterpolatedEntry", "__eq__", """
def f(self, other):
    if type(other) is not type(self):
        return False
    if not np.isclose(self.energy, other.energy):
        return False
    if getattr(self, "entry_id", None) and getattr(other, "entry_id", None):
        return self.entry_id == other.entry_id
    return not self.composition != other.composition
""")
    ctx.spec("entries", "ExperimentalReferenceEntry", "__eq__", """
def f(self, other):
    if isinstance(other, self.__class__):
        return ((self.composition.reduced_formula == other.composition.reduced_formula) and (self.temperature == other.temperature)
            and math.isclose(self.correction_per_atom, other.correction_per_atom))
    return False
""")
    # what equality compares exactly is all a hash may depend on
    for c in ("GibbsComputedEntry", "InterpolatedEntry"):
        hashed(ctx, c, "(self.__class__, self.__class__.__name__)")
        hashed(ctx, c, "(self.__class__, self.__class__.__name__, self.composition, self.composition.reduced_formula, self.energy, self.entry_id%s)"
               % (", self.temperature" if c[0] == "G" else ""), construct=c + ".__hash__ (identical entries)")
    ctx.spec("hash", "ExperimentalReferenceEntry", "__hash__", """
def f(self):
    return int(hashlib.md5(f"{self.__class__.__name__}{self.composition.reduced_formula}_{float(self.temperature)}".encode()).hexdigest(), 16)
""", bad=[f"def f(self):\n    return int(hashlib.md5(f'{{self.__class__.__name__}}{{self.composition.reduced_formula}}_{x}'.encode()).hexdigest(), 16)" for x in
          ("{self.temperature}_{self.energy}", "{self.temperature!r}_{self.energy}", "{float(self.temperature)}_{self.energy}", "{self.temperature}_{self.energy_per_atom}",
           "{self.temperature!r}", "{self.temperature}_{self.entry_id}", "{self.temperature}_{self.correction_per_atom}", "{float(self.temperature)}_{self.correction_per_atom}")], alts=["def f(self):\n    return hash((self.__class__.__name__, self.composition.reduced_formula, self.temperature))"])


def hashed(ctx, cls, allowed, construct=None):
    """hash(...) is computed from values on which equal objects agree exactly"""
    from ..check import HOLD, INC, VIOL
    from ..evalr import call_name

    construct = construct or cls + ".__hash__"

    def go():
        f, c = ctx.target(cls, "__hash__")
        ctx.analysed.add(f.qual)
        t = ctx.res(cls, "__hash__").ret
        ref = ctx.e0.run_def_cached(f"def f(self):\n    return {allowed}", c, f.mod, f).ret
        good = set(ref.args[0])
        if t.op == "const":
            ctx.add("hash", construct, VIOL if t.args[0] is None else HOLD, "no hash", f)
            return
        if t.op != "call" or call_name(t) != "hash":
            ctx.add("hash", construct, INC, f"hash is computed as {t}", f)
            return
        x = t.args[1][0]
        parts = list(x.args[0]) if x.op == "tuple" else [x]
        bad = [p for p in parts if p not in good]
        st = HOLD if not bad else VIOL if all(known(p, good) or listed(p) for p in bad) else INC
        ctx.add("hash", construct, st, "" if not bad else "hash depends on values that equal objects need not share: " + ", ".join(str(p) for p in bad), f)

    ctx.guard("hash", construct, go)


def listed(p):
    """the order in which the phases are listed: equal reactions may list them differently"""
    return p.op == "attr" and p.args[0].op == "self" and p.args[1] in ("reactants", "products", "elements")


def known(p, good):
    from ..check import X

    return any(q.op == "attr" and q.args[1] in ("coefficients", "_coefficients", "energy", "energy_per_atom", "data", "entries", "_entries",
               "correction", "temperature", "composition", "entry_id", "unique_id", "compositions", "_compositions", "lowest_num_errors", "parameters")
               for q in X.subterms(p))


def inherited(ctx, c):
    from ..check import HOLD, VIOL

    k = ctx.p.by_cls.get(c)
    if k is None:
        return
    own = {"__eq__", "__hash__"} & set(k.members)
    ctx.holds("inherited", f"{c}: equality and hash", len(own) != 1, f"{c} redefines only {own}", None) if own else ctx.add("inherited", f"{c}: equality and hash", HOLD)
