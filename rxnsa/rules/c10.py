"""Thermodynamic conditions (temperature, open element, chemical potential) carried by reaction sets."""

META = {
    "title": "Conditions set on a reaction set apply to every reaction and nothing is lost",
    "statement": (
        "A reaction set with an open element and chemical potential yields open reactions carrying exactly that element "
        "and potential, and closed reactions otherwise; every set derived from it by filtering, selecting or adding keeps "
        "the same open element and potential, and a set built from open reactions adopts their common element and "
        "potential when there is exactly one. Setting a chemical potential changes only the open element and potential "
        "(an absent potential counting as zero), and changing the temperature re-evaluates every reaction once with "
        "entries at that temperature, in order, under the same open element and potential, without merging entries that "
        "share a composition; computing at several temperatures gives, for each, the same as changing to it."
    ),
    "over": ["inputs", "histories"],
    "quant": "every reaction set, open element, chemical potential, temperature list and sequence of derivations",
    "why": "tests set one chemical potential on one oxygen system and look at a few energies",
    "files": ["src/rxn_network/reactions/reaction_set.py"],
    "mech": [("open element and potential", "ReactionSet.__init__ (mu_dict), set_chempot, from_rxns"),
             ("temperature", "set_new_temperature, compute_at_temperatures"),
             ("derived sets", "_get_rxn_set_by_indices, add_rxn_set")],
}
FLOOR = 5


def rules(ctx):
    from ..check import field
    from .c09 import FROM, SUB, strip_filter

    S = "ReactionSet"
    for a in ("open_elem", "chempot"):
        ctx.spec("store", S, "__init__", f"""
def f(self, entries, indices, coeffs, open_elem=None, chempot=0.0, all_data=None):
    self.{a} = {a}
""", what=f"store:{a}", construct=f"{S}.{a}")
        ctx.spec("adopt", S, "from_rxns", FROM.replace("rs = rs.filter_duplicates()", "pass"),
                 sel=lambda t, s=field(a): s(strip_filter(t)), construct=f"{S}.from_rxns:{a}")
        ctx.spec("carry", S, "_get_rxn_set_by_indices", "def f(self, idxs):\n" + SUB, sel=field(a),
                 construct=f"{S}._get_rxn_set_by_indices:{a}")
        ctx.spec("carry", S, "add_rxn_set", """
def f(self, rxn_set):
    return ReactionSet(self.entries, None, None, self.open_elem, self.chempot, None)
""", sel=field(a), construct=f"{S}.add_rxn_set:{a}")
    ctx.spec("store", S, "__init__", """
def f(self, entries, indices, coeffs, open_elem=None, chempot=0.0, all_data=None):
    self.mu_dict = {Element(open_elem): chempot} if open_elem else None
""", what="store:mu_dict", construct=f"{S}.mu_dict")
    ctx.spec("potential", S, "set_chempot", """
def f(self, open_el, chempot):
    return ReactionSet(self.entries, self.indices, self.coeffs, open_el, 0 if chempot is None else chempot, self.all_data)
""", bad=[f"""
def f(self, open_el, chempot):
    if {t}:
        chempot = self.chempot
    return ReactionSet(self.entries, self.indices, self.coeffs, open_el, chempot, self.all_data)
""" for t in ("chempot is None", "not chempot")])
    at = """
    def at(t):
        es = {e.composition: e.get_new_temperature(t) for e in self.entries}
        return es if len(es) == len(self.entries) else None
"""
    new = "ReactionSet.from_rxns([r.get_new_temperature(t, es) for r in self.get_rxns()], open_elem=self.open_elem, chempot=self.chempot)"
    ctx.spec("temperature", S, "set_new_temperature", f"def f(self, new_temp):{at}    t = new_temp\n    es = at(t)\n    return {new}\n")
    ctx.spec("temperature", S, "compute_at_temperatures",
             f"def f(self, temp_list):{at}    out = {{}}\n    for t in temp_list:\n        es = at(t)\n        out[t] = {new}\n    return out\n",
             bad=[f"""
def f(self, temp_list):{at}
    out = {{}}
    new = []
    for t in temp_list:
        es = at(t)
        for r in self.get_rxns():
            new.append(r.get_new_temperature(t, es))
        out[t] = ReactionSet.from_rxns(new, open_elem=self.open_elem, chempot=self.chempot)
    return out
"""])
    for r, cls in (("open", "OpenComputedReaction"), ("closed", "ComputedReaction")):
        pass
    kind(ctx)


def kind(ctx):
    """the reactions a set yields are open with mu_dict exactly when mu_dict is set"""
    from .. import terms as X
    from ..check import HOLD, INC, VIOL
    from ..terms import mk

    def go():
        for name in ("get_rxns", "_get_rxns_by_indices"):
            r = ctx.res("ReactionSet", name)
            f = ctx.method("ReactionSet", name)
            at = X.truthy(mk("attr", mk("self"), "mu_dict"))
            at = at.args[0] if at.op == "ite" else None
            ok, bad = 0, []
            for ev in r.events:
                if ev.kind != "new":
                    continue
                t = ev.data[0]
                cls = t.args[0]
                if cls not in ("OpenComputedReaction", "ComputedReaction"):
                    continue
                g = ev.guard
                val = cls == "OpenComputedReaction"
                wrong = X.cof(g, at, 0 if val else 1)
                if wrong is not X.FALSE and at in X.dd_atoms(g) or at not in X.dd_atoms(g):
                    bad.append(f"{cls} constructed regardless of the open element at line {ev.line}" if at not in X.dd_atoms(g)
                               else f"{cls} constructed under the wrong condition")
                elif val and dict(t.args[1]).get("chempots") is not mk("attr", mk("self"), "mu_dict"):
                    bad.append("open reaction with other chemical potentials")
                else:
                    ok += 1
            if bad and ok:
                ctx.add("kind", f"ReactionSet.{name}", VIOL, "; ".join(bad), f)
            elif ok:
                ctx.add("kind", f"ReactionSet.{name}", HOLD, "", f)
            else:
                ctx.add("kind", f"ReactionSet.{name}", INC, "; ".join(bad) or "no construction seen", f)

    ctx.guard("kind", "ReactionSet.get_rxns", go)
