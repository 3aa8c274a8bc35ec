"""Questions asked of a reaction."""

META = {
    "title": "Reaction queries answer for the reaction's own phases, in any order or formula",
    "statement": (
        "The phases, elements and chemical system a reaction reports are those of its own compositions (for open reactions "
        "without the open elements, with the total system including them); a reaction is an identity exactly when both sides "
        "hold the same phases in the same amounts, and separable from a target exactly when every other product is a common gas "
        "or contains no element of the target. The coefficient of a phase is the one given for it, asking for a phase that is "
        "not in the reaction raises, and the vector over all entry indices holds each coefficient at its entry's index and zero "
        "elsewhere. The printed form lists each phase on its side with its amount (reading a text takes an omitted amount as one), "
        "the normalised form divides by the greatest common divisor, and the amount of an element is half of what both sides hold."
    ),
    "over": ["inputs"],
    "quant": "every reaction, target and phase",
    "why": "tests ask a handful of fixtures",
    "files": ["src/rxn_network/reactions/basic.py", "src/rxn_network/reactions/base.py", "src/rxn_network/reactions/computed.py",
              "src/rxn_network/reactions/open.py"],
    "mech": [("queries", "BasicReaction.is_separable, is_identity, get_coeff, chemical_system; Reaction.elements"),
             ("open reactions", "OpenComputedReaction.total_chemical_system"), ("entry vector", "ComputedReaction.get_entry_idx_vector"),
             ("printed form", "BasicReaction._str_from_formulas, _str_from_comp")],
}
FLOOR = 8

IDENT = """
def f(self):
    if set(self.reactants) != set(self.products):
        return False
    if self.balanced is False:
        return True
    return all(np.isclose(self.reactant_coeffs[c] * -1, self.product_coeffs[c]) for c in self.reactant_coeffs)
"""


def rules(ctx):
    from .. import lint
    from ..check import effects

    B = "BasicReaction"
    ctx.spec("query", B, "is_separable", """
def f(self, target):
    target = Composition(target)
    found = [c for c in self.compositions if c.reduced_composition == target.reduced_composition]
    if len(found) == 0:
        raise ValueError("x")
    added = set(self.elements) - set(target.elements)
    prods = set(self.products)
    for t in found:
        prods.discard(t)
    return all(c.reduced_formula in COMMON_GASES or added.issuperset(c.elements) for c in prods)
""")
    lint.raising_remove(ctx, "query", B, "is_separable")
    for c in (B, "ComputedReaction", "OpenComputedReaction"):
        ctx.spec("query", c, "is_identity", IDENT, bad=[IDENT[:IDENT.rindex("    return")] + "    return " + x + "\n" for x in (
            "np.allclose(sorted(-v for v in self.reactant_coeffs.values()), sorted(self.product_coeffs.values()))",
            "np.allclose(sorted(self.reactant_coeffs.values()), sorted(self.product_coeffs.values()))",
            "np.isclose(-sum(self.reactant_coeffs.values()), sum(self.product_coeffs.values()))",
            "np.isclose(sum(self.reactant_coeffs.values()), -sum(self.product_coeffs.values()))",
            "np.isclose(sum(self.coefficients), 0)", "np.isclose(np.sum(self.coefficients), 0)")])
        ctx.spec("query", c, "compositions", "def f(self):\n    return self._compositions")
        ctx.spec("query", c, "coefficients", "def f(self):\n    return self._coefficients")
        ctx.spec("query", c, "chemical_system", "def f(self):\n    return '-'.join(sorted([str(el) for el in self.elements]))")
        ctx.spec("query", c, "get_coeff", "def f(self, comp):\n    return self.coefficients[self.compositions.index(comp)]")
        if c != "OpenComputedReaction":
            ctx.spec("query", c, "elements", "def f(self):\n    return list({el for comp in self.compositions for el in comp.elements})")
    ctx.spec("query", "OpenComputedReaction", "elements", "def f(self):\n    return list({el for comp in self.compositions for el in comp.elements} - set(self.open_elems))")
    ctx.spec("query", B, "get_el_amount", "def f(self, element):\n    return sum(self.compositions[i][element] * abs(self.coefficients[i]) for i in range(len(self.compositions))) / 2")
    init = """
def f(self, compositions, coefficients, balanced=None, data=None, lowest_num_errors=0):
    self._compositions = [Composition(c) for c in compositions]
    self._coefficients = np.array(coefficients, dtype=float)
"""
    for a in ("_compositions", "_coefficients"):
        ctx.spec("query", B, "__init__", init, what="store:" + a, construct=f"{B}.{a}")
    cinit = """
def f(self, entries, coefficients, data=None, lowest_num_errors=0):
    self._entries = list(entries)
"""
    ctx.spec("query", "ComputedReaction", "__init__", cinit, what="store:_entries", construct="ComputedReaction._entries")
    for c, extra in (("ComputedReaction", ""), ("OpenComputedReaction", "chempots, ")):
        full = f"""
def f(self, entries, coefficients, {extra}data=None, lowest_num_errors=0):
    self._compositions = [Composition(e.composition.reduced_composition) for e in entries]
    self._coefficients = np.array(coefficients, dtype=float)
    self.data = data if data else {{}}
    self.lowest_num_errors = lowest_num_errors
    self._entries = list(entries)
"""
        for a in ("_compositions", "_coefficients", "data", "lowest_num_errors", "_entries"):
            ctx.spec("query", c, "__init__", full, what="store:" + a, construct=f"{c}.{a}")
    oi = """
def f(self, entries, coefficients, chempots, data=None, lowest_num_errors=0):
    self.chempots = chempots
    self.open_elems = list(chempots.keys())
"""
    for a in ("chempots", "open_elems"):
        ctx.spec("query", "OpenComputedReaction", "__init__", oi, what="store:" + a, construct=f"OpenComputedReaction.{a}")
    ctx.spec("query", "ComputedReaction", "entries", "def f(self):\n    return self._entries")
    ctx.spec("query", "OpenComputedReaction", "total_chemical_system", """
def f(self):
    return "-".join(sorted([str(e) for e in set(self.elements) | set(self.open_elems)]))
""")
    VEC = """
def f(self, n):
    v = np.zeros(n)
    v[[e.data["idx"] for e in self.entries]] = self.coefficients
    return v
"""
    ctx.spec("vector", "ComputedReaction", "get_entry_idx_vector", VEC)
    STR = """
def f(coeffs, formulas, tol=1e-6):
    r = []
    p = []
    for amt, formula in zip(coeffs, formulas):
        if abs(amt + 1) < tol:
            r.append(formula)
        elif abs(amt - 1) < tol:
            p.append(formula)
        elif amt < -tol:
            r.append(f"{-amt:.4g} {formula}")
        elif amt > tol:
            p.append(f"{amt:.4g} {formula}")
    return " + ".join(r) + " -> " + " + ".join(p)
"""
    ctx.spec("text", B, "_str_from_formulas", STR)
    COMP = """
def f(cls, coeffs, compositions, reduce=False):
    rc = np.zeros(len(coeffs))
    rf = []
    for i, (amt, comp) in enumerate(zip(coeffs, compositions)):
        formula, factor = comp.get_reduced_formula_and_factor()
        rc[i] = amt * factor
        rf.append(formula)
    if reduce:
        factor = 1 / gcd_float(np.abs(rc))
        rc = rc * factor
    else:
        factor = 1
    return cls._str_from_formulas(rc, rf), factor
"""
    ctx.spec("text", B, "_str_from_comp", COMP, bad=[COMP.replace("gcd_float(np.abs(rc))", x) for x in ("min(np.abs(rc))", "np.min(np.abs(rc))", "np.abs(rc).min()", "max(np.abs(rc))", "np.abs(rc).max()",
                                                                                                  "np.max(np.abs(rc))", "np.abs(rc)[0]", "abs(rc[0])", "sum(np.abs(rc))")])
    ctx.spec("text", B, "_from_coeff_dicts", """
def f(reactant_coeffs, product_coeffs):
    rc, ra = zip(*[(c, -1 * a) for c, a in reactant_coeffs.items()])
    pc, pa = zip(*list(product_coeffs.items()))
    return BasicReaction(rc + pc, ra + pa)
""")
    ctx.spec("text", B, "from_string", """
def f(cls, rxn_string):
    left, right = rxn_string.split("->")
    def amounts(s):
        return {Composition(m.group(2)): float(m.group(1) or 1)
                for m in re.finditer(r"([\\d\\.]*(?:[eE]-?[\\d\\.]+)?)\\s*([A-Z][\\w\\.\\(\\)]*)", s)}
    return cls._from_coeff_dicts(amounts(left), amounts(right))
""", opaque=("_from_coeff_dicts",))
    ctx.spec("text", B, "from_formulas", """
def f(cls, reactants, products):
    return cls.balance(reactants=[Composition(r) for r in reactants], products=[Composition(p) for p in products])
""", opaque=("balance",))
    ctx.spec("text", B, "__str__", "def f(self):\n    return self._str_from_comp(self.coefficients, self.compositions)[0]", opaque=("_str_from_comp",))
    ctx.spec("text", B, "normalized_repr_and_factor", "def f(self):\n    return self._str_from_comp(self.coefficients, self.compositions, reduce=True)",
             opaque=("_str_from_comp",))
    ctx.spec("text", B, "normalized_repr", "def f(self):\n    return self.normalized_repr_and_factor()[0]")
