"""Derived reactions keep what they are derived from."""

META = {
    "title": "Copied, reversed, normalised and re-heated reactions keep their identity",
    "statement": (
        "Copying, reversing, normalising (to a phase or to an element) or changing the temperature of a reaction gives "
        "a reaction of the same kind over the same phases: a copy has the same coefficients, a reversal every "
        "coefficient negated, a normalisation every coefficient multiplied by the one positive factor that brings the "
        "chosen phase or element to the requested amount, and a temperature change the same coefficients with every "
        "entry replaced by the entry for its own composition at the new temperature. For reactions built from entries, "
        "the entries, attached data, balancing-error count and, for open reactions, chemical potentials are carried "
        "over unchanged."
    ),
    "over": ["inputs", "histories"],
    "quant": "every reaction of every kind and every chain of copy, reverse, normalise and temperature-change operations",
    "why": "tests check one or two reactions per operation and mostly compare only the coefficients or the printed form",
    "files": ["src/rxn_network/reactions/basic.py", "src/rxn_network/reactions/computed.py",
              "src/rxn_network/reactions/open.py"],
    "mech": [("copy / reverse", "BasicReaction, ComputedReaction, OpenComputedReaction"),
             ("normalisation", "normalize_to, normalize_to_element"),
             ("temperature change", "get_new_temperature")],
}
FLOOR = 8


def rules(ctx):
    from ..check import fields

    R = "derived"
    full = {
        "BasicReaction": "BasicReaction(self.compositions, {c}, self.balanced, self.data, self.lowest_num_errors)",
        "ComputedReaction": "ComputedReaction(self.entries, {c}, self.data, self.lowest_num_errors)",
        "OpenComputedReaction": "OpenComputedReaction(self.entries, {c}, self.chempots, self.data, self.lowest_num_errors)",
    }
    for c, t in full.items():
        ctx.spec(R, c, "copy", f"def f(self):\n    return {t.format(c='self.coefficients')}")
        ctx.spec(R, c, "reverse", f"def f(self):\n    return {t.format(c='-1 * self.coefficients')}")
        if c == "BasicReaction":
            sel = fields("compositions", "coefficients")
        else:
            sel = fields("entries", "coefficients", "data", "lowest_num_errors", "chempots")
        k1 = "(self.coefficients * abs(factor / self.coefficients[self.compositions.index(comp)]))"
        k2 = "(self.coefficients * (factor / (sum(c[element] * abs(x) for c, x in zip(self.compositions, self.coefficients)) / 2)))"
        ctx.spec(R, c, "normalize_to", f"def f(self, comp, factor=1):\n    return {t.format(c=k1)}", sel=sel)
        ctx.spec(R, c, "normalize_to_element", f"def f(self, element, factor=1):\n    return {t.format(c=k2)}", sel=sel)
        if c != "BasicReaction":
            ctx.spec(R, c, "get_new_temperature", f"""
def f(self, new_temperature, entries_at_temp=None):
    try:
        if entries_at_temp is None:
            new = [e.get_new_temperature(new_temperature) for e in self.entries]
        else:
            new = [entries_at_temp.get(e.composition) for e in self.entries]
    except AttributeError as e:
        raise AttributeError("x") from e
    return {t.format(c='self.coefficients').replace('self.entries', 'new')}
""")
    ctx.spec(R, "OpenComputedReaction", "from_computed_rxn", """
def f(cls, reaction, chempots):
    return OpenComputedReaction(reaction.entries, reaction.coefficients, chempots, reaction.data, reaction.lowest_num_errors)
""")
