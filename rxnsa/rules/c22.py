"""Thermodynamic stability: filtering, stabilising, energy above hull."""

META = {
    "title": "Stability filtering keeps exactly the entries within the cutoff",
    "statement": (
        "Filtering by stability returns a new set with exactly the entries whose energy above hull in their phase diagram does "
        "not exceed the cutoff; without polymorphs it keeps one entry per formula, the one of lowest energy per atom. The "
        "energy above hull of an entry comes from a phase diagram that covers all of its elements. Stabilising an entry lowers "
        "its energy by exactly its energy above hull plus the tolerance, using a recorded hull energy when there is one, and "
        "returns an entry that is already stable unchanged unless forced."
    ),
    "over": ["inputs", "configurations"],
    "quant": "every entry set, cutoff, polymorph option and entry",
    "why": "tests filter one fixture at two cutoffs and stabilise one entry",
    "files": ["src/rxn_network/entries/entry_set.py", "src/rxn_network/entries/utils.py"],
    "mech": [("filter", "GibbsEntrySet.filter_by_stability"), ("energy above hull", "GibbsEntrySet.get_e_above_hull"),
             ("stabilise", "GibbsEntrySet.get_stabilized_entry")],
}
FLOOR = 3


def rules(ctx):
    from ..check import effects, folds, vary
    from .c06 import adjusted

    S = "GibbsEntrySet"
    FILT = """
def f(self, e_above_hull, include_polymorphs=False):
    kept = set()
    best = {}
    for pd in self.pd_dict.values():
        for e in pd.all_entries:
            if e in kept or pd.get_e_above_hull(e) > e_above_hull:
                continue
            k = e.composition.reduced_formula
            if not include_polymorphs and k in best:
                if best[k].energy_per_atom < e.energy_per_atom:
                    continue
                kept.remove(best[k])
            best[k] = e
            kept.add(e)
    return self.__class__(list(kept))
"""
    cont = "            if e in kept or pd.get_e_above_hull(e) > e_above_hull:\n                continue\n"
    low = "                if best[k].energy_per_atom < e.energy_per_atom:\n                    continue\n"
    WRONG = vary(FILT, (cont, cont.replace("continue", "break")), (cont, ""), (low, low.replace("continue", "break")), (low, ""), ("            best[k] = e\n", ""),
                 (cont, cont.replace(" > ", " >= ")), (low, low.replace(" < ", " > ")),
                 ("            if not include_polymorphs and k in best:\n" + low + "                kept.remove(best[k])\n", ""),
                 ("if not include_polymorphs and k in best", "if include_polymorphs and k in best"), (low, low.replace("energy_per_atom", "energy")),
                 ("            best[k] = e\n", "            best.setdefault(k, e)\n"),
                 ("if not include_polymorphs and k in best", "if not include_polymorphs and k in best and e.is_element"),
                 (cont, cont.replace(" > e_above_hull", " > e_above_hull + 1e-3")))
    ctx.spec("filter", S, "filter_by_stability", FILT, bad=WRONG)
    ctx.spec("filter", S, "filter_by_stability", FILT, what=folds(), construct=S + ".filter_by_stability:bookkeeping", bad=WRONG)
    ctx.spec("filter", S, "filter_by_stability", FILT, what=effects("get_e_above_hull"), construct=S + ".filter_by_stability:energies")
    ctx.spec("hull", S, "get_e_above_hull", """
def f(self, entry):
    for cs, pd in self.pd_dict.items():
        if set(entry.composition.chemical_system.split("-")).issubset(set(cs.split("-"))):
            return pd.get_e_above_hull(entry)
    raise ValueError("x")
""")
    ADJ = """
def f(entry, adjustment):
    d = entry.as_dict()
    o = d.get("entry", None)
    if o:
        a = o["energy_adjustments"]
    else:
        a = d["energy_adjustments"]
    a.append(adjustment.as_dict())
    return MontyDecoder().process_decoded(d)
"""
    STAB = """
def f(self, entry, tol=1e-3, force=False):
    h = None
    if hasattr(entry, "data"):
        h = entry.data.get("e_above_hull")
    if h is None:
        h = self.get_e_above_hull(entry)
    if h == 0.0 and not force:
        return entry
    return self.get_adjusted_entry(entry, ConstantEnergyAdjustment(value=-1 * h * entry.composition.num_atoms - tol,
        name="Stabilization Adjustment", description="Shifts energy so that entry is on the convex hull"))
"""
    ctx.spec("stabilise", S, "get_adjusted_entry", ADJ, bad=adjusted(ADJ))
    ctx.spec("stabilise", S, "get_adjusted_entry", ADJ, what=effects(kinds=("mut",)), construct=S + ".get_adjusted_entry:adjustments")
    h0, data = "if h == 0.0 and not force", '    h = None\n    if hasattr(entry, "data"):\n        h = entry.data.get("e_above_hull")\n    if h is None:\n'
    ctx.spec("stabilise", S, "get_stabilized_entry", STAB, opaque=("get_adjusted_entry",), bad=vary(
        STAB, *[(h0, "if " + x) for x in ("h <= tol and not force", "h < tol and not force", "abs(h) < tol and not force", "h == 0.0", "h == 0.0 or not force", "h == 0.0 and force",
                                          "not force", "False", "h <= 1e-3 and not force")],
        ("-1 * h *", "-1 / h *"), ("    if h is None:\n", "    if not h:\n"), (data, data.replace("    if h is None", "    if h is not None")), (data, "    if True:\n"),
        ("entry.composition.num_atoms - tol", "entry.composition.num_atoms"), ("h * entry.composition.num_atoms - tol", "(h * entry.composition.num_atoms - tol)"),
        ("h * entry.composition.num_atoms - tol", "h - tol"), ("- tol", "- tol * entry.composition.num_atoms")))
    diagrams(ctx, "diagrams")


def diagrams(ctx, rule):
    """phase diagrams for a large entry set: one per maximal chemical system, with all of its entries"""
    from ..check import effects, vary

    EXP = """
def f(entries, pbar=False):
    pds = {}
    grand = all(isinstance(e, GrandPotPDEntry) for e in entries)
    for e in sorted(entries, key=lambda x: len(x.composition.elements), reverse=True):
        for cs in pds:
            if set(e.composition.chemical_system.split("-")).issubset(cs.split("-")):
                break
        else:
            sub = [x for x in entries if set(x.composition.elements).issubset(e.composition.elements)]
            if grand:
                pd = GrandPotentialPhaseDiagram(sub, sub[0].chempots)
            else:
                pd = PhaseDiagram(sub)
            pds[e.composition.chemical_system] = pd
    return pds
"""
    U, cs = "rxn_network.thermo.utils", "e.composition.chemical_system"
    wrong = vary(EXP, ("for cs in pds:", "for cs in list(pds)[:1]:"), (f"set({cs}.split(\"-\")).issubset(cs", f"set({cs}.split(\"-\")).issuperset(cs"),
                 (f"pds[{cs}] = pd", "pds[sub[0].composition.chemical_system] = pd"), (f"pds[{cs}] = pd", f"pds.setdefault({cs[2:]}, pd)".replace("(composition", "(sub[0].composition")),
                 ("all(isinstance(e, Grand", "any(isinstance(e, Grand"), (", reverse=True", ""), (f"pds[{cs}] = pd", f"pds[sub[-1].composition.chemical_system] = pd"))
    ctx.spec(rule, U, "expand_pd", EXP, bad=wrong)
    for n in ("PhaseDiagram", "GrandPotentialPhaseDiagram"):
        ctx.spec(rule, U, "expand_pd", EXP, what=effects(n), cut=("fold",), construct="expand_pd:" + n)
    ctx.spec(rule, U, "expand_pd", EXP, what=effects("append", "setitem", kinds=("mut", "mutlocal")), construct="expand_pd:filling", bad=wrong)
