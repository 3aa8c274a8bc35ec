"""Entry set: cached views, indices, subsets, derived sets."""

META = {
    "title": "Entry set views stay coherent with its content and derived sets keep every entry",
    "statement": (
        "After any sequence of additions, updates and removals, every derived view of an entry set (ordered list, ground "
        "states by formula, chemical system, temperature, phase diagrams) reflects the current content, and each entry's index "
        "is its position in the ordered list. A chemical-system subset holds exactly the entries of that system. Sets derived "
        "by adjusting, interpolating, re-heating or adding noise are new sets whose entries correspond to the originals, which "
        "are left unchanged; re-heating recomputes hull energies exactly when the original set had them."
    ),
    "over": ["inputs", "histories"],
    "quant": "every entry set, sequence of modifications and requested view",
    "why": "tests add or drop one entry on one fixture and look at one view",
    "files": ["src/rxn_network/entries/entry_set.py"],
    "mech": [("cache invalidation", "GibbsEntrySet.add, update, discard, _clear_cache"), ("views", "cached properties of GibbsEntrySet"),
             ("derived sets", "get_subset_in_chemsys, get_entries_with_new_temperature, get_entries_with_jitter, get_adjusted_entry")],
}
FLOOR = 10

JITTER = """
def f(self):
    es = deepcopy(self.entries_list)
    new = []
    j = normal(size=len(es))
    for i, e in enumerate(es):
        if e.is_element:
            %s
            continue
        u = e.correction_uncertainty
        if np.isnan(u):
            u = 0.0
        new.append(self.get_adjusted_entry(e, ConstantEnergyAdjustment(value=j[i] * u, name="Random jitter",
            description="Randomly sampled (Gaussian) noise to account for uncertainty in data")))
    return GibbsEntrySet(new)
"""


def adjusted(src):
    """wrong ways to add one adjustment to an entry's dictionary"""
    from ..check import vary

    return vary(src, ("    if o:", "    if not o:"), ("    if o:", "    if True:"), ("    if o:", "    if False:"), ("    a.append(adjustment.as_dict())\n", ""),
                ("    a.append(adjustment.as_dict())\n", "    a = [adjustment.as_dict()]\n"), ("    a.append(adjustment.as_dict())\n", "    a = a + [adjustment.as_dict()]\n"),
                ("    a.append(adjustment.as_dict())\n", "    a.clear()\n    a.append(adjustment.as_dict())\n"))


def rules(ctx):
    from ..check import effects, vary

    S = "GibbsEntrySet"
    init = """
def f(self, entries, calculate_e_above_hulls=False, minimize_obj_size=False):
    self.entries = set(entries)
    self.calculate_e_above_hulls = calculate_e_above_hulls
    self.minimize_obj_size = minimize_obj_size
    if minimize_obj_size:
        for e in self.entries:
            e.parameters = {}
            e.data = {}
    if calculate_e_above_hulls:
        for e in self.entries:
            e.data["e_above_hull"] = self.get_e_above_hull(e)
"""
    for a in ("entries", "calculate_e_above_hulls", "minimize_obj_size"):
        ctx.spec("content", S, "__init__", init, what="store:" + a, construct=f"{S}.{a}")
    ctx.spec("content", S, "__init__", init, what=effects(kinds=("mut",)), construct=S + ".__init__:hull energies")
    for a in ("parameters", "data"):
        ctx.spec("content", S, "__init__", init, what=effects(a, kinds=("setattr",)), construct=S + ".__init__:minimised " + a)
    ctx.spec("content", S, "__contains__", "def f(self, item):\n    return item in self.entries")
    ctx.spec("content", S, "__iter__", "def f(self):\n    return self.entries.__iter__()")
    ctx.spec("content", S, "__len__", "def f(self):\n    return len(self.entries)")
    for n, arg in (("add", "entry"), ("update", "entries"), ("discard", "entry")):
        src = f"def f(self, {arg}):\n    self.entries.{n}({arg})\n    self._clear_cache()\n"
        ctx.spec("content", S, n, src, what=effects(kinds=("mut",)), construct=f"{S}.{n}:content")
    # every public method that changes the content drops all cached views
    def clears():
        for n in ("add", "update", "discard"):
            f = ctx.method(S, n)
            r = ctx.res(S, n)
            ok = any(e.kind == "call" and "delattr" in repr(e.data[0]) or e.kind == "delattr" for e in r.events)
            ctx.holds("cache", f"{S}.{n} invalidates", ok, "the content changes but the cached views are kept", f)
    ctx.guard("cache", S, clears)
    CLR = """
def f(self):
    for name, value in inspect.getmembers(GibbsEntrySet):
        if isinstance(value, cached_property):
            try:
                delattr(self, name)
            except AttributeError:
                continue
"""
    ctx.spec("cache", S, "_clear_cache", CLR, what=effects("delattr", kinds=("call", "delattr")), construct=S + "._clear_cache")
    ctx.spec("view", S, "pd_dict", "def f(self):\n    return expand_pd(self.entries)")
    ctx.spec("view", S, "entries_list", "def f(self):\n    return sorted(self.entries, key=lambda e: e.composition)",
             bad=["def f(self):\n    return %s" % x for x in (
                 "list(self.entries)", "sorted(self.entries, key=lambda e: e.composition, reverse=True)", "sorted(self.entries, key=lambda e: e.energy_per_atom)",
                 "sorted(self.entries, key=lambda e: e.composition)[1:]", "sorted(self.entries, key=lambda e: e.composition)[:-1]")])
    MINE = """
def f(self):
    out = {}
    for e in self.entries:
        k = e.composition.reduced_formula
        if k not in out:
            out[k] = sorted([x for x in self.entries if x.composition.reduced_formula == k], key=lambda x: x.energy_per_atom)[0]
    return out
"""
    ctx.spec("view", S, "min_entries_by_formula", MINE, bad=vary(
        MINE, ("sorted([x for x in self.entries if x.composition.reduced_formula == k], key=lambda x: x.energy_per_atom)[0]", "e")))
    ctx.spec("view", S, "chemsys", """
def f(self):
    return {el.symbol for e in self.entries for el in e.composition}
""")
    TEMP = """
def f(self):
    t = 0.0
    for e in self.entries:
        if isinstance(e, (ExperimentalReferenceEntry | GibbsComputedEntry)):
            t = e.temperature
            break
    return t
"""
    ctx.spec("view", S, "temperature", TEMP, bad=vary(
        TEMP, ("        if isinstance(e, (ExperimentalReferenceEntry | GibbsComputedEntry)):", "        if True:"),
        ("            break", "        break")))
    ctx.spec("view", S, "get_min_entry_by_formula", """
def f(self, formula):
    return self.min_entries_by_formula[Composition(formula).reduced_formula]
""")
    ctx.spec("view", S, "build_indices", """
def f(self):
    for i, e in enumerate(self.entries_list):
        e.data.update({"idx": i})
""", what=effects(kinds=("mut",)), construct=S + ".build_indices")
    SUB = """
def f(self, chemsys):
    if isinstance(chemsys, str):
        chemsys = chemsys.split("-")
    cs = set(chemsys)
    if not cs.issubset(self.chemsys):
        raise ValueError("x")
    return GibbsEntrySet({e for e in self.entries if cs.issuperset([sp.symbol for sp in e.composition])}, calculate_e_above_hulls=False)
"""
    c = "cs.issuperset([sp.symbol for sp in e.composition])"
    ctx.spec("derived", S, "get_subset_in_chemsys", SUB, bad=vary(
        SUB, *[(c, x) for x in ("cs.intersection([sp.symbol for sp in e.composition])", "cs & set([sp.symbol for sp in e.composition])",
                                "cs.issubset([sp.symbol for sp in e.composition])", "cs == set([sp.symbol for sp in e.composition])",
                                "not cs.isdisjoint([sp.symbol for sp in e.composition])", "any(sp.symbol in cs for sp in e.composition)",
                                "len(e.composition) == len(cs) and " + c)]))
    HEAT = """
def f(self, new_temperature):
    out = []
    for e in self.entries_list:
        try:
            n = e.get_new_temperature(new_temperature)
        except ValueError:
            continue
        n.data["e_above_hull"] = None
        out.append(n)
    return self.__class__(out, calculate_e_above_hulls=self.calculate_e_above_hulls)
"""
    HBAD = vary(HEAT, ("            continue", "            break"), ("            continue", "            n = e"), ("self.entries_list", "self.entries_list[1:]"),
                ("self.entries_list", "self.min_entries_by_formula.values()"), ("calculate_e_above_hulls=self.calculate_e_above_hulls", "calculate_e_above_hulls=False"),
                ("calculate_e_above_hulls=self.calculate_e_above_hulls", "calculate_e_above_hulls=True"))
    ctx.spec("derived", S, "get_entries_with_new_temperature", HEAT, bad=HBAD)
    ctx.spec("derived", S, "get_entries_with_new_temperature", HEAT, what=effects(kinds=("mut", "mutlocal")),
             construct=S + ".get_entries_with_new_temperature:writes")
    ctx.spec("derived", S, "get_entries_with_jitter", JITTER % "pass", construct=S + ".get_entries_with_jitter:shifted",
             bad=vary(JITTER % "pass", ("            continue", "            break"), ("j[i] * u", "j[i]"), ("j[i] * u", "j[0] * u"), ("j[i] * u", "j[i] / u"),
                      ("if np.isnan(u)", "if not u"), ("u = 0.0", "u = 1.0")),
             opaque=("get_adjusted_entry",))
    ctx.spec("derived", S, "get_entries_with_jitter", JITTER % "new.append(e)", construct=S + ".get_entries_with_jitter:elements kept",
             sel=lambda t: t)
    ctx.spec("derived", S, "get_entries_with_jitter", JITTER % "pass", what=effects("deepcopy"), construct=S + ".get_entries_with_jitter:fresh")
    ADJ = """
def f(entry, adjustment):
    d = entry.as_dict()
    o = d.get("entry", None)
    if o:
        a = o["energy_adjustments"]
    else:
        a = d["energy_adjustments"]
    a.append(adjustment.as_dict())
    return MontyDecoder().process_decoded(d)
"""
    ctx.spec("derived", S, "get_adjusted_entry", ADJ, bad=adjusted(ADJ))
    ctx.spec("derived", S, "get_interpolated_entry", """
def f(self, formula, tol_per_atom=1e-3):
    c = Composition(formula).reduced_composition
    pdes = self.get_subset_in_chemsys([str(e) for e in c.elements])
    return InterpolatedEntry(c, PhaseDiagram(pdes).get_hull_energy(c) - tol_per_atom * c.num_atoms,
        energy_adjustments=[ConstantEnergyAdjustment(value=0.0, uncertainty=0.05 * c.num_atoms,
            name="Interpolation adjustment (for uncertainty)", description="Maintains uncertainty due to interpolation")],
        entry_id=f"InterpolatedEntry-{c.formula}_{self.temperature}")
""")
    ctx.spec("derived", S, "copy", "def f(self):\n    return GibbsEntrySet(entries=self.entries)",
             bad=["def f(self):\n    return %s" % x for x in (
                 "self", "GibbsEntrySet(entries=self.entries_list[:-1])", "GibbsEntrySet(entries=self.entries_list[1:])", "GibbsEntrySet(entries=[])",
                 "GibbsEntrySet(entries=self.min_entries_by_formula.values())", "GibbsEntrySet(entries=list(self.min_entries_by_formula.values()))",
                 "GibbsEntrySet(entries=set(self.min_entries_by_formula.values()))")])
    asd = """
def f(self):
    d = super().as_dict()
    d["entries"] = [e.as_dict() for e in self.entries]
    d["calculate_e_above_hulls"] = self.calculate_e_above_hulls
    return d
"""
    ctx.spec("derived", S, "as_dict", asd)
