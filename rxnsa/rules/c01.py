"""Thermodynamic quantities of a reaction."""

META = {
    "title": "Reaction energies and mixing fractions follow from coefficients and entries",
    "statement": (
        "The energy of a reaction is the sum over its phases of the signed coefficient times the lowest energy per "
        "reduced formula unit among that phase's entries (grand-potential energies for an open reaction), its per-atom "
        "energy and uncertainty divide by the number of atoms on the product side not counting open elements, and so "
        "energies scale linearly with, and per-atom values are independent of, the way the reaction is normalised. "
        "Atomic and molar fractions of either side of a balanced reaction are each phase's share, weighted by its "
        "coefficient, so they are positive, add up to one and do not depend on normalisation; an unbalanced reaction "
        "has no fractions and raises an error instead."
    ),
    "over": ["inputs"],
    "quant": "every reaction: any set of phases, any coefficients, any polymorph entries, any set of open elements",
    "why": "unit tests compare a handful of energies of two or three fixed reactions, mostly already normalised to one "
    "atom or one formula unit, where a missing coefficient or factor has no effect",
    "files": ["src/rxn_network/reactions/basic.py", "src/rxn_network/reactions/computed.py",
              "src/rxn_network/reactions/open.py"],
    "mech": [("energy", "ComputedReaction.energy, OpenComputedReaction.energy"),
             ("per-atom values", "ComputedReaction.energy_per_atom, energy_uncertainty_per_atom, BasicReaction.num_atoms"),
             ("fractions", "BasicReaction/OpenComputedReaction reactant/product atomic and molar fractions")],
    "explain": "",
}
FLOOR = 6


def rules(ctx):
    R = "value"
    for c in ("BasicReaction", "ComputedReaction", "OpenComputedReaction"):
        ctx.spec(R, c, "num_atoms", """
def num_atoms(self):
    return sum(coeff * sum(c[el] for el in self.elements) for c, coeff in self.product_coeffs.items())
""", why="atoms of the product side, without open elements")
        if c != "OpenComputedReaction":
            num = "c.num_atoms"
        else:
            num = "sum(c[el] for el in self.elements)"
        for side, sg in (("reactant", "-"), ("product", "")):
            ctx.spec(R, c, f"{side}_atomic_fractions", f"""
def f(self):
    if not self.balanced:
        raise ValueError("x")
    return {{c.reduced_composition: {sg}coeff * {num} / self.num_atoms for c, coeff in self.{side}_coeffs.items()}}
""", why="share of atoms, weighted by the coefficient")
            ctx.spec(R, c, f"{side}_molar_fractions", f"""
def f(self):
    if not self.balanced:
        raise ValueError("x")
    return {{c: coeff / sum(self.{side}_coeffs.values()) for c, coeff in self.{side}_coeffs.items()}}
""", why="share of moles")
        ctx.spec(R, c, "get_el_amount", """
def f(self, element):
    return sum(c[element] * abs(x) for c, x in zip(self.compositions, self.coefficients)) / 2
""")
    ctx.spec(R, "ComputedReaction", "energy", """
def f(self):
    calc = {}
    for entry in self.entries:
        comp, factor = entry.composition.get_reduced_composition_and_factor()
        calc[comp] = min(calc.get(comp, float("inf")), entry.energy / factor)
    return sum(amt * calc[c] for amt, c in zip(self.coefficients, self.compositions))
""", why="sum of coefficient times lowest energy per formula unit")
    ctx.spec(R, "OpenComputedReaction", "energy", """
def f(self):
    calc = {}
    for entry in self.grand_entries:
        attr = "composition"
        if isinstance(entry, GrandPotPDEntry):
            attr = "original_comp"
        comp, factor = getattr(entry, attr).get_reduced_composition_and_factor()
        calc[comp] = min(calc.get(comp, float("inf")), entry.energy / factor)
    return sum(amt * calc[c] for amt, c in zip(self.coefficients, self.compositions))
""", why="sum of coefficient times lowest grand-potential energy per formula unit")
    grand = """
def f(self, entries, coefficients, chempots, data=None, lowest_num_errors=0):
    opens = list(chempots.keys())
    self.grand_entries = [e if %s else GrandPotPDEntry(e, chempots) for e in entries]
"""
    ctx.spec(R, "OpenComputedReaction", "__init__",
             grand % "len(e.composition.reduced_composition.elements) == 1 and e.composition.reduced_composition.elements[0] in opens",
             what="store:grand_entries", construct="OpenComputedReaction.grand_entries",
             why="entries of a pure open element keep their energy, all others become grand potentials",
             bad=[grand % x.replace("ELS", "e.composition.reduced_composition.elements") for x in (
                 "any(el in opens for el in ELS)", "all(el in opens for el in ELS)", "set(ELS) & set(opens)", "set(ELS).issubset(opens)",
                 "set(ELS).intersection(opens)", "set(ELS) <= set(opens)", "not set(ELS).isdisjoint(opens)",
                 "any(el in ELS for el in opens)", "all(el in ELS for el in opens)")])
    for c in ("ComputedReaction", "OpenComputedReaction"):
        ctx.spec(R, c, "energy_per_atom", "def f(self):\n    return self.energy / self.num_atoms")
        ctx.spec(R, c, "energy_uncertainty_per_atom", "def f(self):\n    return self.energy_uncertainty / self.num_atoms")
        ctx.spec(R, c, "energy_uncertainty", """
def f(self):
    calc = {}
    for entry in self.entries:
        comp, factor = entry.composition.get_reduced_composition_and_factor()
        u = entry.correction_uncertainty
        if np.isnan(u):
            u = 0.0
        calc[comp] = min(calc.get(comp, float("inf")), ufloat(entry.energy, u) / factor)
    return sum(amt * calc[c] for amt, c in zip(self.coefficients, self.compositions)).s
""")
    ctx.spec(R, "OpenComputedReaction", "elements", """
def f(self):
    return list({el for comp in self.compositions for el in comp.elements} - set(self.open_elems))
""", why="open elements are not counted")
