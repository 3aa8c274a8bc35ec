"""Building entry sets: experimental precedence, corrections, options."""

META = {
    "title": "Building an entry set honours experimental precedence, corrections and options",
    "statement": (
        "Building an entry set from computed data keeps one reference per element, replaces every computed entry of a phase by "
        "its tabulated experimental data whenever an enabled database covers that phase and temperature (unless it is an "
        "ignored solid), and otherwise keeps the computed entry with its own identifier and data. The carbonate correction is "
        "applied once per carbonate ion to GGA carbonates only, and the atmospheric correction to carbon dioxide only, each "
        "only when requested. Every option given to the builders, including in systems of ten or more elements and in the "
        "full processing step, takes effect and the caller's entries are not modified."
    ),
    "over": ["inputs", "configurations"],
    "quant": "every set of computed entries, temperature and combination of options",
    "why": "tests build two fixture systems with default options",
    "files": ["src/rxn_network/entries/entry_set.py", "src/rxn_network/entries/utils.py", "src/rxn_network/thermo/utils.py"],
    "mech": [("building", "GibbsEntrySet.from_pd, from_computed_entries"), ("experimental lookup", "GibbsEntrySet._check_for_experimental"),
             ("carbonates", "GibbsEntrySet._get_carbonate_correction"), ("processing", "process_entries, initialize_entry"),
             ("large systems", "expand_pd")],
}
FLOOR = 6

FROM_PD = """
def f(cls, pd, temperature, include_nist_data=True, include_freed_data=False, apply_carbonate_correction=True,
      apply_atmospheric_co2_correction=True, ignore_nist_solids=True, calculate_e_above_hulls=False, minimize_obj_size=False):
    out = []
    done = []
    for entry in pd.all_entries:
        comp = entry.composition
        formula = comp.reduced_formula
        if (comp.is_element and entry not in pd.el_refs.values()) or formula in done:
            continue
        new = []
        if include_nist_data:
            e = cls._check_for_experimental(formula, "nist", temperature, ignore_nist_solids, apply_atmospheric_co2_correction)
            if e:
                new.append(e)
        if include_freed_data:
            e = cls._check_for_experimental(formula, "freed", temperature, ignore_nist_solids, apply_atmospheric_co2_correction)
            if e:
                new.append(e)
        if new:
            done.append(formula)
        else:
            adj = []
            if apply_carbonate_correction:
                corr = cls._get_carbonate_correction(entry)
                if corr is not None:
                    adj.append(corr)
            if apply_atmospheric_co2_correction and formula == "CO2":
                adj.append(CarbonDioxideAtmosphericCorrection(entry.composition.num_atoms, temperature))
            new.append(GibbsComputedEntry.from_structure(
                structure=entry.structure, formation_energy_per_atom=pd.get_form_energy_per_atom(entry),
                temperature=temperature, energy_adjustments=adj, parameters=entry.parameters, data=dict(entry.data),
                entry_id=entry.entry_id))
        out.extend(new)
    return cls(out, calculate_e_above_hulls=calculate_e_above_hulls, minimize_obj_size=minimize_obj_size)
"""

FROM_COMP = """
def f(cls, entries, temperature, include_nist_data=True, include_freed_data=False, apply_carbonate_correction=True,
      apply_atmospheric_co2_correction=True, ignore_nist_solids=True, calculate_e_above_hulls=False, minimize_obj_size=False):
    es = EntrySet(entries)
    new = set()
    if len(es.chemsys) <= 9:
        return cls.from_pd(PhaseDiagram(es), temperature, include_nist_data=include_nist_data, include_freed_data=include_freed_data,
            apply_carbonate_correction=apply_carbonate_correction,
            apply_atmospheric_co2_correction=apply_atmospheric_co2_correction, ignore_nist_solids=ignore_nist_solids,
            calculate_e_above_hulls=calculate_e_above_hulls, minimize_obj_size=minimize_obj_size)
    for _, pd in expand_pd(list(es)).items():
        new.update(cls.from_pd(pd, temperature, include_nist_data=include_nist_data, include_freed_data=include_freed_data,
            apply_carbonate_correction=apply_carbonate_correction,
            apply_atmospheric_co2_correction=apply_atmospheric_co2_correction, ignore_nist_solids=ignore_nist_solids,
            calculate_e_above_hulls=calculate_e_above_hulls, minimize_obj_size=minimize_obj_size))
    return cls(list(new), calculate_e_above_hulls=calculate_e_above_hulls, minimize_obj_size=minimize_obj_size)
"""

PROCESS = """
def f(entries, temperature, e_above_hull, filter_at_temperature=None, include_nist_data=True, include_freed_data=False,
      include_polymorphs=False, formulas_to_include=None, calculate_e_above_hulls=False, ignore_nist_solids=True):
    temp = temperature
    if filter_at_temperature:
        temp = filter_at_temperature
    es = GibbsEntrySet.from_computed_entries(entries=entries, temperature=temp, include_nist_data=include_nist_data,
        include_freed_data=include_freed_data, ignore_nist_solids=ignore_nist_solids)
    inc = []
    if formulas_to_include:
        inc = [initialize_entry(x, es) for x in formulas_to_include]
    es = es.filter_by_stability(e_above_hull=e_above_hull, include_polymorphs=include_polymorphs)
    es.update(inc)
    if filter_at_temperature and filter_at_temperature != temperature:
        es = es.get_entries_with_new_temperature(temperature)
    if calculate_e_above_hulls:
        es = GibbsEntrySet(deepcopy(es), calculate_e_above_hulls=True)
    return es
"""


def rules(ctx):
    from ..check import effects

    S = "GibbsEntrySet"
    from .. import lint

    lint.shared_arg(ctx, "build", S, "from_pd", ("from_structure", "GibbsComputedEntry"), "data",
                    "the new entry shares the dictionary of the computed entry, so writing one changes the other")
    CHK = """
def f(formula, cls_name, temperature, ignore_nist_solids, apply_atmospheric_co2_correction):
    cls_name = cls_name.lower()
    if cls_name in ("nist", "nistreferenceentry"):
        cl = NISTReferenceEntry
    elif cls_name in ("freed", "freedreferenceentry"):
        cl = FREEDReferenceEntry
    else:
        raise ValueError("x")
    entry = None
    if formula in cl.REFERENCES:
        if cl == NISTReferenceEntry and ignore_nist_solids and formula in IGNORE_NIST_SOLIDS:
            return None
        adj = None
        if apply_atmospheric_co2_correction and formula == "CO2":
            adj = [CarbonDioxideAtmosphericCorrection(3, temperature)]
        try:
            entry = cl(composition=Composition(formula), temperature=temperature, energy_adjustments=adj)
        except ValueError:
            pass
    return entry
"""
    ctx.spec("experimental", S, "_check_for_experimental", CHK)
    ctx.spec("experimental", S, "_check_for_experimental", CHK, what="raises", construct=S + "._check_for_experimental:raises")
    ctx.spec("carbonate", S, "_get_carbonate_correction", """
def f(entry):
    comp = entry.composition
    if not {Element("C"), Element("O")}.issubset(comp.elements):
        return None
    if entry.parameters.get("run_type", None) not in ["GGA", "GGA+U"]:
        return None
    el = comp.get_el_amt_dict()
    c = el.get("C", 0)
    o = el.get("O", 0)
    if c == 0 or o == 0:
        return None
    if not np.isclose(o / c, 3):
        return None
    return CarbonateCorrection(c)
""")
    H = ("_check_for_experimental", "_get_carbonate_correction")
    ctx.spec("build", S, "from_pd", FROM_PD, opaque=H)
    ctx.spec("build", S, "from_pd", FROM_PD, what=effects("_check_for_experimental"), opaque=H, construct=S + ".from_pd:lookup")
    ctx.spec("build", S, "from_pd", FROM_PD, what=effects("from_structure", "_get_carbonate_correction"), opaque=H,
             construct=S + ".from_pd:computed")
    ctx.spec("build", S, "from_pd", FROM_PD, what=effects("dict"), construct=S + ".from_pd:own data")
    ctx.spec("build", S, "from_computed_entries", FROM_COMP)
    ctx.spec("process", "rxn_network.entries.utils", "process_entries", PROCESS)
    for n in ("from_computed_entries", "filter_by_stability", "update", "get_entries_with_new_temperature", "initialize_entry", "deepcopy"):
        ctx.spec("process", "rxn_network.entries.utils", "process_entries", PROCESS, what=effects(n), construct=f"process_entries:{n}")
    ctx.spec("process", "rxn_network.entries.utils", "initialize_entry", """
def f(formula, entry_set, stabilize=False):
    try:
        e = entry_set.get_min_entry_by_formula(formula)
    except KeyError:
        e = entry_set.get_interpolated_entry(formula)
    if stabilize:
        e = entry_set.get_stabilized_entry(e)
    return e
""")
    from .c22 import diagrams

    diagrams(ctx, "large")
