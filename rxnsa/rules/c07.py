"""Enumerators: filters and options."""
from ..check import effects, folds, vary

META = {
    "title": "Enumerated reactions respect the precursors, targets and all filters",
    "statement": (
        "An enumerator returns a reaction if and only if the reaction comes from a candidate pair over the entries, is not an identity, is "
        "balanced and unchanged (unless that is allowed) within the constraint limit, and its reactants and products apart from open "
        "phases satisfy the precursor and target choice (all of them, or at least one). Skipping a chemical system or a candidate "
        "early never loses such a reaction, each option given to an enumerator reaches the step that uses it, and thermodynamic "
        "enumerators use the phase diagram of exactly the candidate's chemical system, at the open element's potential if any."
    ),
    "over": ["inputs", "configurations"],
    "quant": "every entry set, precursor and target list, open phase and option of every enumerator",
    "why": "the tests count reactions of two fixture systems with a few option combinations",
    "files": ["src/rxn_network/enumerators/basic.py", "src/rxn_network/enumerators/minimize.py", "src/rxn_network/enumerators/utils.py"],
    "mech": [("filters", "_react, BasicEnumerator._filter_dict_by_elems"), ("candidates", "_get_rxn_iterable, _get_combos_dict"),
             ("options", "__init__ of the four enumerators"), ("thermodynamics", "react_interface, _get_entries_and_pds")],
}
FLOOR = 30

REACT = """
def f(chunk, react_function, open_entries, precursors, targets, p_set_func, t_set_func, remove_unbalanced, remove_changed,
      max_num_constraints):
    out = []
    for it, ents, pd, gpd in chunk:
        ents = ray.get(ents)
        pd = ray.get(pd)
        gpd = ray.get(gpd)
        for rp in it:
            if not rp:
                continue
            r = set(rp[0]) if rp[0] else set()
            p = set(rp[1]) if rp[1] else set()
            ap = r | p
            pf = getattr(precursors | open_entries, p_set_func) if precursors else lambda e: True
            tf = getattr(targets | open_entries, t_set_func) if targets else lambda e: True
            if (r & p) or (precursors and not precursors & ap) or (p and targets and not targets & ap):
                continue
            if not (pf(r) or (p and pf(p))):
                continue
            if p and not (tf(r) or tf(p)):
                continue
            rs = []
            for rxn in react_function(r, p, filtered_entries=ents, pd=pd, grand_pd=gpd):
                if (rxn.is_identity or (remove_unbalanced and not rxn.balanced) or (remove_changed and rxn.lowest_num_errors != 0)
                        or rxn.data["num_constraints"] > max_num_constraints):
                    continue
                if pf(set(rxn.reactant_entries) - open_entries) and tf(set(rxn.product_entries) - open_entries):
                    rs.append(rxn)
            out.extend(rs)
    return out
"""

PDS = """
def f(combos_dict_chunk, entries, build_pd, build_grand_pd, chempots):
    out = {}
    for item in combos_dict_chunk:
        if item is None:
            continue
        cs, _ = item
        ents = None
        pd = None
        gpd = None
        if build_pd or build_grand_pd:
            ents = entries.get_subset_in_chemsys(cs.split("-"))
        if build_pd:
            pd = PhaseDiagram(ents)
        if build_grand_pd:
            gpd = GrandPotentialPhaseDiagram(ents, chempots)
        out[cs] = (ents, pd, gpd)
    return out
"""

FILTER = """
def f(self, combos_dict, precursor_elems, target_elems, all_open_elems):
    out = {}
    pe = {el for g in precursor_elems for el in g}
    te = {el for g in target_elems for el in g}
    oe = {str(el) for el in all_open_elems}
    fe = None
    if self.filter_by_chemsys:
        fe = set(self.filter_by_chemsys.split("-"))
    for cs, combos in combos_dict.items():
        el = set(cs.split("-"))
        if fe and not el.issuperset(fe):
            continue
        if len(el) >= 10 or len(el) == 1:
            continue
        if precursor_elems and not getattr(pe | oe, self._p_set_func)(el):
            continue
        if target_elems and not getattr(te | oe, self._t_set_func)(el):
            continue
        out[cs] = combos
    return out
"""

COMBOS = """
def f(self, entries, precursor_entries, target_entries, open_entries):
    oe = {el for e in open_entries for el in e.composition.elements}
    rest = entries - open_entries
    return self._filter_dict_by_elems(
        group_by_chemsys([set(c) for c in limited_powerset(rest, self.n)], oe),
        [[str(el) for el in e.composition.elements] for e in precursor_entries],
        [[str(el) for el in e.composition.elements] for e in target_entries],
        oe)
"""

ENTRIES = """
def f(self, entries):
    precursors, targets = set(), set()
    new = GibbsEntrySet(deepcopy(entries))
    if self.precursors:
        precursors = {initialize_entry(x, entries, self.stabilize) for x in self.precursors}
    if self.targets:
        targets = {initialize_entry(x, entries, self.stabilize) for x in self.targets}
    for e in precursors | targets:
        if e not in new:
            try:
                new.discard(new.get_min_entry_by_formula(e.composition.reduced_formula))
            except KeyError:
                pass
            new.add(e)
    if self.stabilize:
        new = new.filter_by_stability(e_above_hull=0.0)
    new.build_indices()
    op = set()
    if self.open_phases:
        op = {e for e in new if e.composition.reduced_formula in self.open_phases}
    return new, precursors, targets, op
"""

BASE_INIT = """
def f(self, precursors, targets):
    self.precursors = precursors or []
    self.targets = targets or []
"""
OPTS = ("exclusive_precursors", "exclusive_targets", "filter_duplicates", "filter_by_chemsys", "chunk_size", "max_num_jobs",
        "remove_unbalanced", "remove_changed", "max_num_constraints", "quiet")
DEFAULTS = {"exclusive_precursors": "True", "exclusive_targets": "False", "filter_duplicates": "False", "filter_by_chemsys": "None",
            "remove_unbalanced": "True", "remove_changed": "True", "max_num_constraints": "1", "quiet": "False"}


def init_src(chunk, jobs, pre, extra, n, after):
    sig = ", ".join(f"{o}={DEFAULTS.get(o) or (chunk if o == 'chunk_size' else jobs)}" for o in OPTS)
    nn = "n=2, " if n else ""
    return f"def f(self, {pre}precursors=None, targets=None, {nn}{sig}):\n    " + "\n    ".join(
        ["self.precursors = precursors or []", "self.targets = targets or []", "self.n = " + ("n" if n else "2")]
        + [f"self.{o} = {o}" for o in OPTS]
        + ["self._stabilize = False", "self._p_set_func = 'issuperset' if exclusive_precursors else 'intersection'",
           "self._t_set_func = 'issuperset' if exclusive_targets else 'intersection'"] + after) + "\n"


def candidates(ctx):
    """candidate generation and the remote job, shared with C08"""
    from .. import lint

    B, O, M, G = "BasicEnumerator", "BasicOpenEnumerator", "MinimizeGibbsEnumerator", "MinimizeGrandPotentialEnumerator"
    EB, EU = "rxn_network.enumerators.basic", "rxn_network.enumerators.utils"
    wrong = vary(REACT, ("(r & p) or", "r == p or"), ("(r & p) or", ""), ("(precursors and not precursors & ap)", "(precursors and not precursors & r)"),
                 ("(p and targets and not targets & ap)", "(p and targets and not targets & p)"), ("(p and targets and", "(targets and"),
                 ("if not rp:", "if not rp or not all(rp):"), ("if not rp:", "if not rp or not rp[1]:"),
                 ("(r & p) or (precursors", "(r | p) <= open_entries or (precursors"), ("(pf(r) or (p and pf(p)))", "(pf(r) and (p and pf(p)))"),
                 ("(tf(r) or tf(p))", "(tf(r) and tf(p))"), ("(pf(r) or (p and pf(p)))", "pf(r)"), ("(tf(r) or tf(p))", "tf(p)"),
                 ("rxn.lowest_num_errors != 0", "rxn.lowest_num_errors > 1"), ('> max_num_constraints', '>= max_num_constraints'),
                 ("if pf(set(rxn.reactant_entries) - open_entries) and tf", "if pf(set(rxn.reactant_entries) - open_entries) or tf"),
                 ("pf(set(rxn.reactant_entries) - open_entries)", "pf(set(rxn.reactant_entries))"),
                 ("tf(set(rxn.product_entries) - open_entries)", "tf(set(rxn.product_entries))"))
    ctx.spec("filters", EB, "_react", REACT, bad=wrong)
    ctx.spec("filters", EB, "_react", REACT, what=effects("react_function"), construct="_react:call", bad=wrong)
    ctx.spec("filters", B, "_filter_dict_by_elems", FILTER)
    wrong = vary(ENTRIES, ("                pass\n            new.add(e)", "                new.add(e)"),
                 ("        if e not in new:\n            try:", "        if e in new:\n            try:"), ("precursors | targets:", "precursors:"),
                 ("precursors | targets:", "targets:"), ("precursors | targets:", "precursors & targets:"))
    ctx.spec("candidates", B, "_get_initialized_entries", ENTRIES, bad=wrong)
    lint.skipped(ctx, "candidates", B, "_get_initialized_entries", "add", ("get_min_entry_by_formula",), "a phase without any entry yet is never added to the set")
    for n in ("initialize_entry", "filter_by_stability", "build_indices", "discard", "add"):
        ctx.spec("candidates", B, "_get_initialized_entries", ENTRIES, what=effects(n), construct=f"_get_initialized_entries:{n}", bad=wrong)
    ctx.spec("candidates", "rxn_network.utils.funcs", "limited_powerset", """
def f(iterable, max_size):
    return chain.from_iterable([combinations(iterable, k) for k in range(1, max_size + 1)])
""")
    SYS = """
def f(entries, open_elems=None):
    els = {x for e in entries for x in e.composition.elements}
    if open_elems:
        els.update(list(open_elems))
    return "-".join(sorted([str(e) for e in els]))
"""
    ctx.spec("candidates", EU, "get_total_chemsys_str", SYS, bad=vary(SYS, *[("els.update(list(open_elems))", f"els.{m}(list(open_elems))") for m in
             ("intersection_update", "difference_update", "symmetric_difference_update")], ("if open_elems", "if not open_elems"),
             ("sorted([str(e) for e in els])", "[str(e) for e in els]"), ("sorted([str(e) for e in els])", "[str(e) for e in sorted(els)]")))
    ctx.spec("candidates", EU, "group_by_chemsys", """
def f(combos, open_elems=None):
    out = {}
    for c in combos:
        key = get_total_chemsys_str(c, open_elems)
        if key in out:
            out[key].append(c)
        else:
            out[key] = [c]
    return out
""", opaque=("get_total_chemsys_str",))
    ctx.spec("candidates", B, "_get_combos_dict", COMBOS, opaque=("_filter_dict_by_elems", "group_by_chemsys", "limited_powerset"))
    ctx.spec("candidates", EU, "get_elems_set", """
def f(entries):
    return {str(x) for e in entries for x in e.composition.elements}
""")
    ctx.spec("candidates", B, "_get_rxn_iterable", "def f(combos, open_combos):\n    return combinations(combos, 2)",
             bad=["def f(combos, open_combos):\n    return " + x for x in ("zip(combos, combos[1:])", "product(combos, combos)", "permutations(combos, 2)",
                  "combinations_with_replacement(combos, 2)", "combinations(combos, 3)", "pairwise(combos)", "combinations(combos[1:], 2)", "zip(combos[::2], combos[1::2])")])
    ctx.spec("candidates", O, "_get_rxn_iterable", """
def f(combos, open_combos):
    return product(combos, [c | o for c in combos for o in open_combos if not c & o])
""")
    ctx.spec("candidates", M, "_get_rxn_iterable", "def f(combos, open_combos):\n    return product(combos, [None])")
    ctx.spec("candidates", G, "_get_rxn_iterable", "def f(combos, open_combos):\n    return product(combos, [None])")
    ctx.spec("candidates", B, "_get_open_combos", "def f(self, open_entries):\n    return None")
    ctx.spec("candidates", O, "_get_open_combos", """
def f(self, open_entries):
    return [set(c) for c in limited_powerset(open_entries, len(open_entries))]
""", opaque=("limited_powerset",))
    ctx.spec("thermo", EB, "_get_entries_and_pds", PDS)


def rules(ctx):
    B, O, M, G = "BasicEnumerator", "BasicOpenEnumerator", "MinimizeGibbsEnumerator", "MinimizeGrandPotentialEnumerator"
    EB, EU = "rxn_network.enumerators.basic", "rxn_network.enumerators.utils"
    candidates(ctx)
    for c in (B, O):
        ctx.spec("react", c, "_react_function", """
def f(reactants, products, **kwargs):
    a = ComputedReaction.balance(reactants, products)
    return [a, a.reverse()]
""")
    ctx.spec("thermo", EU, "get_computed_rxn", """
def f(rxn, entries, chempots=None):
    r = [entries.get_min_entry_by_formula(x.reduced_formula) for x in rxn.reactants]
    p = [entries.get_min_entry_by_formula(x.reduced_formula) for x in rxn.products]
    if chempots:
        return OpenComputedReaction.balance(r, p, chempots)
    return ComputedReaction.balance(r, p)
""")
    INTERFACE = """
def f(r1, r2, filtered_entries, pd, grand_pd=None):
    mu = None
    if grand_pd:
        itf = GrandPotentialInterfacialReactivity(r1, r2, grand_pd, pd_non_grand=pd, norm=True, include_no_mixing_energy=True,
                                                  use_hull_energy=True)
        mu = grand_pd.chempots
    else:
        itf = InterfacialReactivity(r1, r2, pd, use_hull_energy=True)
    return [get_computed_rxn(x, filtered_entries, mu) for _, _, _, x, _ in itf.get_kinks()]
"""
    ctx.spec("thermo", EU, "react_interface", INTERFACE, opaque=("get_computed_rxn",))
    for n in ("GrandPotentialInterfacialReactivity", "InterfacialReactivity"):
        ctx.spec("thermo", EU, "react_interface", INTERFACE, what=effects(n), opaque=("get_computed_rxn",), construct="react_interface:" + n)
    RF = """
def f(reactants, products, filtered_entries=None, pd=None, grand_pd=None, **kwargs):
    r = list(reactants)
    a = r[0]
    b = r[0] if len(r) == 1 else r[1]
    return react_interface(a.composition, b.composition, filtered_entries, pd, grand_pd)
"""
    RFG = """
def f(reactants, products, filtered_entries=None, pd=None, grand_pd=None, **kwargs):
    r = list(reactants)
    a = r[0]
    b = r[0] if len(r) == 1 else r[1]
    oe = next(iter(grand_pd.chempots.keys()))
    for x in r:
        el = x.composition.elements
        if len(el) == 1 and el[0] == oe:
            return []
    return react_interface(a.composition, b.composition, filtered_entries, pd, grand_pd=grand_pd)
"""
    ctx.spec("react", M, "_react_function", RF, opaque=("react_interface",))
    ctx.spec("react", G, "_react_function", RFG, opaque=("react_interface",), bad=vary(RFG, ("len(el) == 1 and el[0] == oe", "oe in el"),
             ("len(el) == 1 and el[0] == oe", "len(el) == 1"), ("b = r[0] if len(r) == 1 else r[1]", "b = r[0]"), ("            return []", "            continue"),
             (", grand_pd=grand_pd)", ")")))
    STAB = """
def f(pd, entries_to_adjust, tol=1e-6):
    idx = [pd.all_entries.index(e) for e in entries_to_adjust]
    out = []
    for _, e in zip(idx, entries_to_adjust):
        d = e.as_dict()
        d["energy"] = e.uncorrected_energy - (eh + tol)
        out.append(ComputedEntry.from_dict(d))
    return out
"""
    bad = []
    for d in ("to_dict", "as_dict"):
        for e in ("- (eh + tol)", "+ (eh - tol)"):
            bad.append(STAB.replace("as_dict", d).replace("- (eh + tol)", e).replace("eh", "pd.get_e_above_hull(e) * e.composition.num_atoms"))
    ctx.spec("thermo", EU, "stabilize_entries", STAB.replace("eh", "pd.get_e_above_hull(e) * e.composition.num_atoms"), bad=bad[:2] + bad[3:])

    for a in ("precursors", "targets"):
        ctx.spec("options", "Enumerator", "__init__", BASE_INIT, what=f"store:{a}", construct=f"Enumerator.{a}")
    com = ["self.open_phases = None", "self._build_pd = False", "self._build_grand_pd = False"]
    SRC = {
        B: init_src("2500", "5000", "", "", True, com),
        O: init_src("2500", "5000", "open_phases, ", "", True, ["self.open_phases = open_phases", "self._build_pd = False", "self._build_grand_pd = False"]),
        M: init_src("1000", "1000", "", "", False, ["self.open_phases = None", "self._build_pd = True", "self._build_grand_pd = False"]),
        G: init_src("1000", "1000", "open_elem, mu, ", "", False, [
            "self.open_elem = Element(open_elem)", "self.open_phases = [Composition(str(Element(open_elem))).reduced_formula]",
            "self.mu = mu", "self.chempots = {Element(open_elem): mu}", "self._build_pd = True", "self._build_grand_pd = True"]),
    }
    for c, src in SRC.items():
        attrs = ("precursors", "targets", "n", *OPTS, "_stabilize", "_p_set_func", "_t_set_func", "open_phases", "_build_pd", "_build_grand_pd")
        if c == G:
            attrs += ("open_elem", "mu", "chempots")
        for a in attrs:
            ctx.spec("options", c, "__init__", src, what=f"store:{a}", construct=f"{c}.{a}")
    for a in ("stabilize", "build_pd", "build_grand_pd"):
        ctx.spec("options", B, a, f"def f(self):\n    return self._{a}")
    RUN = """
def f(enumerators, entries):
    s = None
    for i, en in enumerate(enumerators):
        r = en.enumerate(entries)
        s = r if i == 0 else s.add_rxn_set(r)
    if s is not None:
        s = s.filter_duplicates()
    return s
"""
    ctx.spec("run", EU, "run_enumerators", RUN)
    for n in ("enumerate", "add_rxn_set", "filter_duplicates"):
        ctx.spec("run", EU, "run_enumerators", RUN, what=effects(n), construct="run_enumerators:" + n)
