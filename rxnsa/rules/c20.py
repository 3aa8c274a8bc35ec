"""Jobs and flows."""
import ast

from ..check import effects, folds, vary

META = {
    "title": "Jobs and flows pass every option on and record what they were asked to do",
    "statement": (
        "Every job applies exactly the settings of its maker: entries are processed with the maker's options, enumeration runs all "
        "enumerators, networks and solvers get the maker's cost function, precursors, targets, open element and potential, and the "
        "document records the results with the settings used. Competition scores of a reaction are computed against every reaction "
        "available from its own reactants (and the open phase), independently of which other reactions are scored, how they are "
        "chunked, and in which order chunks finish. A flow makes one enumeration, network and pathway job per chemical potential, each "
        "fed by the outputs of the right jobs."
    ),
    "over": ["inputs", "configurations", "schedules"],
    "quant": "every combination of maker options, reaction sets and chunk sizes",
    "why": "tests run each job once with mostly default options; flows and competition jobs are hardly run at all",
    "files": ["src/rxn_network/jobs/core.py", "src/rxn_network/jobs/utils.py", "src/rxn_network/flows/core.py"],
    "mech": [("options", "GetEntrySetMaker.make, NetworkMaker.make, PathwaySolverMaker.make"),
             ("competition", "CalculateCompetitionMaker.make, _get_competition_decorated_rxns_by_chunk, _get_competition_decorated_rxn"),
             ("flow", "NetworkFlowMaker.make")],
}
FLOOR = 25
J = "rxn_network.jobs.core"

ENTRIES = """
def f(self, chemsys):
    db = SETTINGS.JOB_STORE.additional_stores.get(self.entry_db_name)
    if db:
        entries = get_all_entries_in_chemsys_from_entry_db(db, chemsys)
    else:
        try:
            from mp_api.client import MPRester
        except ImportError as err:
            raise ImportError("x") from err
        kw = {}
        if self.MP_API_KEY:
            kw["api_key"] = self.MP_API_KEY
        els = {Element(i) for i in chemsys.split("-")}
        if len(els) <= 25:
            with MPRester(**kw) as m:
                entries = m.get_entries_in_chemsys(elements=chemsys, additional_criteria={"thermo_types": ["GGA_GGA+U"]})
        else:
            with MPRester(**kw) as m:
                docs = m.summary.search(exclude_elements=self._get_exclude_elems(els), all_fields=False, deprecated=False)
            ids = [d.material_id for d in docs]
            with MPRester(**kw) as m:
                entries = m.get_entries(ids, additional_criteria={"thermo_types": ["GGA_GGA+U"]})
    if self.custom_entries:
        entries.extend(self.custom_entries)
    entries = process_entries(entries, temperature=self.temperature, e_above_hull=self.e_above_hull,
        include_nist_data=self.include_nist_data, include_freed_data=self.include_freed_data,
        filter_at_temperature=self.filter_at_temperature, include_polymorphs=self.include_polymorphs,
        formulas_to_include=self.formulas_to_include, calculate_e_above_hulls=self.calculate_e_above_hulls,
        ignore_nist_solids=self.ignore_nist_solids)
    doc = EntrySetDocument(entries=entries, e_above_hull=self.e_above_hull, include_polymorphs=self.include_polymorphs,
        formulas_to_include=self.formulas_to_include)
    doc.task_label = self.name
    return doc
"""

ENUM = """
def f(self, enumerators, entries):
    data = {}
    data["rxns"] = run_enumerators(enumerators, entries)
    data.update(self._get_metadata(enumerators, entries))
    t = EnumeratorTaskDocument(**data)
    t.task_label = self.name
    return t
"""

META_SRC = """
def f(self, enumerators, entries):
    cs = "-".join(sorted(entries.chemsys))
    targets = {t for e in enumerators for t in e.targets}
    ae = None
    ac = None
    if targets:
        ae, ac = get_added_elem_data(entries, targets)
    return {"elements": [Element(e) for e in cs.split("-")], "chemsys": cs, "enumerators": [e.as_dict() for e in enumerators],
            "targets": sorted(targets), "added_elements": ae, "added_chemsys": ac}
"""

COMP = """
def f(self, rxn_sets, entries, target_formula):
    if not ray.is_initialized():
        initialize_ray()
    target_formula = Composition(target_formula).reduced_formula
    ae, ac = get_added_elem_data(entries, [target_formula])
    every = rxn_sets[0]
    for s in rxn_sets[1:]:
        every = every.add_rxn_set(s)
    if self.open_elem:
        every = ReactionSet(every.entries, every.indices, every.coeffs, self.open_elem, self.chempot, every.all_data)
    hits = every.get_rxns_by_product(target_formula, return_set=True)
    if len(hits) == 0:
        raise ValueError("x")
    forms = {c.reduced_formula for r in hits for c in r.reactants}
    if self.open_formula:
        forms.add(self.open_formula)
    every = every.get_rxns_by_reactants(forms, return_set=True)
    n = len(every)
    ref = ray.put(every.as_dict())
    out = hits
    if self.calculate_competition:
        out = self._get_competition_decorated_rxns(hits, ref, n)
    if self.calculate_chempot_distances:
        out = self._get_chempot_decorated_rxns(out, entries)
    doc = CompetitionTaskDocument(**{"rxns": ReactionSet.from_rxns(out, entries=entries), "target_formula": target_formula,
        "open_elem": self.open_elem, "chempot": self.chempot, "added_elements": ae, "added_chemsys": ac,
        "calculate_competition": self.calculate_competition, "calculate_chempot_distances": self.calculate_chempot_distances,
        "cpd_kwargs": self.cpd_kwargs})
    doc.task_label = self.name
    return doc
"""

COMP_PAR = """
def f(self, target_rxns, all_rxns, num_rxns):
    refs = []
    per = 250
    ncpu = ray.cluster_resources()["CPU"]
    mem = ray.cluster_resources()["memory"]
    size = self.chunk_size
    need = per * num_rxns
    if ncpu * need > mem:
        size = int(len(target_rxns) // (mem // need)) + 1
    for chunk in grouper(target_rxns, size, fillvalue=None):
        c = ray.put(chunk)
        refs.append(_get_competition_decorated_rxns_by_chunk.options(memory=num_rxns * per).remote(c, all_rxns, self.open_formula))
    out = []
    for s in tqdm(to_iterator(refs), desc="x", total=len(refs)):
        out.extend(s)
    return ReactionSet.from_rxns(out)
"""

CPD_PAR = """
def f(self, target_rxns, entries):
    if not ray.is_initialized():
        initialize_ray()
    refs = []
    oe = target_rxns.open_elem
    mu = target_rxns.chempot
    entries = ray.put(entries)
    kw = ray.put(self.cpd_kwargs)
    for chunk in grouper(sorted(target_rxns, key=lambda r: r.chemical_system), self.chunk_size, fillvalue=None):
        refs.append(_get_chempot_decorated_rxns_by_chunk.remote(chunk, entries, kw, oe, mu))
    out = []
    for s in tqdm(to_iterator(refs), desc="x", total=len(refs)):
        out.extend(s)
    return ReactionSet.from_rxns(out)
"""

SCORE = """
def f(rxn, competing_rxns, precursors_list):
    if len(precursors_list) == 1:
        others = np.array([r.energy_per_atom for r in competing_rxns if r != rxn])
        if not np.isclose(others, 0.0).any():
            others = np.append(others, 0.0)
        c1 = rxn.energy_per_atom - others.min()
        d = rxn.energy_per_atom - others
        pos = d[d > 0]
        c2 = pos.max() if pos.any() else 0.0
        rxn.data["primary_competition"] = round(c1, 4)
        rxn.data["secondary_competition"] = round(c2, 4)
        return rxn
    irh = InterfaceReactionHull(precursors_list[0], precursors_list[1], list(competing_rxns))
    return SecondaryCompetitionCalculator(irh=irh).decorate(PrimaryCompetitionCalculator(irh=irh).decorate(rxn))
"""

SCORE_CHUNK = """
def f(rxn_chunk, all_rxns, open_formula):
    out = []
    every = ReactionSet.from_dict(all_rxns)
    for rxn in rxn_chunk:
        if not rxn:
            continue
        forms = [r.reduced_formula for r in rxn.reactants]
        plus = forms.copy()
        if open_formula:
            plus.append(open_formula)
        comp = every.get_rxns_by_reactants(plus)
        if len(forms) >= 3:
            if open_formula:
                forms = list(set(forms) - {open_formula})
            else:
                raise ValueError("x")
        out.append(_get_competition_decorated_rxn(rxn, comp, forms))
    return out
"""

CPD_CHUNK = """
def f(rxn_chunk, entries, cpd_kwargs, open_elem, chempot):
    calcs = {}
    new = []
    if open_elem:
        oset = {Element(open_elem)}
    rxn_chunk = [r for r in rxn_chunk if r is not None]
    for rxn in sorted(rxn_chunk, key=lambda r: len(r.elements), reverse=True):
        cs = rxn.chemical_system
        els = cs.split("-")
        for c, k in calcs.items():
            if set(c.split("-")).issuperset(els):
                calc = k
                break
        else:
            if open_elem:
                sub = entries.get_subset_in_chemsys([*els, str(open_elem)])
                sub = [e.to_grand_entry({Element(open_elem): chempot}) for e in sub if set(e.composition.elements) != oset]
            else:
                sub = entries.get_subset_in_chemsys(els)
            calc = ChempotDistanceCalculator.from_entries(sub, **cpd_kwargs)
            calcs[cs] = calc
        new.append(calc.decorate(rxn))
    return ReactionSet.from_rxns(new, entries=entries)
"""

NET = """
def f(self, rxn_sets):
    rx = ReactionSet.from_rxns([r for s in rxn_sets for r in s.get_rxns()], open_elem=self.open_elem, chempot=self.chempot).filter_duplicates()
    rn = ReactionNetwork(rx, cost_function=self.cost_function)
    rn.build()
    paths = None
    if self.precursors:
        rn.set_precursors(self.precursors)
    if self.targets:
        rn.set_target(self.targets[0])
    if self.calculate_pathways and self.targets:
        paths = rn.find_pathways(self.targets, k=self.calculate_pathways)
    doc = NetworkTaskDocument(**{"network": rn, "paths": paths, "k": self.calculate_pathways, "precursors": self.precursors,
                                 "targets": self.targets})
    doc.task_label = self.name
    return doc
"""

SOLVE = """
def f(self, pathways, entries):
    mu = None
    if self.open_elem:
        mu = {Element(self.open_elem): self.chempot}
    ps = PathwaySolver(pathways=pathways, entries=entries, cost_function=self.cost_function, open_elem=self.open_elem, chempot=self.chempot)
    net = get_computed_rxn(self.net_rxn, entries, mu)
    paths = ps.solve(net_rxn=net, max_num_combos=self.max_num_combos, find_intermediate_rxns=self.find_intermediate_rxns,
        intermediate_rxn_energy_cutoff=self.intermediate_rxn_energy_cutoff, use_basic_enumerator=self.use_basic_enumerator,
        use_minimize_enumerator=self.use_minimize_enumerator, filter_interdependent=self.filter_interdependent)
    doc = PathwaySolverTaskDocument(**{"solver": ps, "balanced_paths": paths, "precursors": self.precursors, "targets": self.targets,
        "net_rxn": net, "max_num_combos": self.max_num_combos, "find_intermediate_rxns": self.find_intermediate_rxns,
        "intermediate_rxn_energy_cutoff": self.intermediate_rxn_energy_cutoff, "use_basic_enumerator": self.use_basic_enumerator,
        "use_minimize_enumerator": self.use_minimize_enumerator, "filter_interdependent": self.filter_interdependent})
    doc.task_label = self.name
    return doc
"""

FLOW = """
def f(self, precursors, targets, entries=None):
    pf = [Composition(x).reduced_formula for x in precursors]
    tf = [Composition(x).reduced_formula for x in targets]
    name = f"Reaction network analysis: {'-'.join(sorted(pf))} -> {'-'.join(sorted(tf))}"
    cs = "-".join({str(e) for x in pf + tf for e in Composition(x).elements})
    jobs = []
    if entries is None:
        m = self.get_entry_set_maker.update_kwargs({
            "name": self.get_entry_set_maker.name + f" ({cs}, T={self.get_entry_set_maker.temperature} K, +{round(self.get_entry_set_maker.e_above_hull, 3)} eV)",
            "formulas_to_include": list(set(self.get_entry_set_maker.formulas_to_include + pf + tf))})
        j = m.make(cs)
        jobs.append(j)
        entries = j.output.entries
    en = []
    if self.use_basic_enumerators:
        en.append(BasicEnumerator(**self.basic_enumerator_kwargs))
        if self.open_formula:
            en.append(BasicOpenEnumerator(open_phases=[self.open_formula], **self.basic_enumerator_kwargs))
    if self.use_minimize_enumerators:
        en.append(MinimizeGibbsEnumerator(**self.minimize_enumerator_kwargs))
    ej = self.enumeration_maker.make(enumerators=en, entries=entries)
    jobs.append(ej)
    base = ej.output.rxns
    nj = self.network_maker.make([base])
    jobs.append(nj)
    if self.solver_maker:
        jobs.append(self.solver_maker.make(nj.output.paths, entries=nj.output.network.entries))
    if self.use_minimize_enumerators and self.open_elem and self.chempots:
        for mu in self.chempots:
            sub = f"(open {self.open_elem!s}, mu={mu})"
            em = self.enumeration_maker.update_kwargs({"name": self.enumeration_maker.name + sub}, nested=False)
            nm = self.network_maker.update_kwargs({"name": self.network_maker.name + sub, "chempot": mu, "open_elem": self.open_elem}, nested=False)
            if self.solver_maker:
                sm = self.solver_maker.update_kwargs({"name": self.solver_maker.name + sub, "chempot": mu, "open_elem": self.open_elem}, nested=False)
            g = MinimizeGrandPotentialEnumerator(open_elem=self.open_elem, mu=mu, **self.minimize_enumerator_kwargs)
            ej2 = em.make(enumerators=[g], entries=entries)
            nj2 = nm.make([base, ej2.output.rxns])
            jobs.extend([ej2, nj2])
            if self.solver_maker:
                jobs.append(sm.make(nj2.output.paths, entries=nj2.output.network.entries))
    return Flow(jobs, name=name)
"""

OPEN = """
def f(self):
    self.open_elem = Element(self.open_elem) if self.open_elem else None
    self.open_formula = Composition(str(self.open_elem)).reduced_formula if self.open_elem else None
"""
L, D = "field(default_factory=list)", "field(default_factory=dict)"
FIELDS = {
    "GetEntrySetMaker": dict(temperature="300", e_above_hull="0.0", filter_at_temperature="None", include_nist_data="True",
        include_freed_data="False", include_polymorphs="False", formulas_to_include=L, calculate_e_above_hulls="True",
        ignore_nist_solids="True", custom_entries=L, MP_API_KEY="None", entry_db_name="None", property_data="None"),
    "CalculateCompetitionMaker": dict(open_elem="None", chempot="0.0", calculate_competition="True", calculate_chempot_distances="False",
        cpd_kwargs=D),
    "NetworkMaker": dict(precursors="None", targets="None", calculate_pathways="10", open_elem="None", chempot="0.0"),
    "PathwaySolverMaker": dict(precursors=L, targets=L, open_elem="None", chempot="0.0", max_num_combos="4", find_intermediate_rxns="True",
        intermediate_rxn_energy_cutoff="0.0", use_basic_enumerator="True", use_minimize_enumerator="False", filter_interdependent="True"),
    "NetworkFlowMaker": dict(solver_maker="None", open_elem="None", chempots="None", use_basic_enumerators="True",
        use_minimize_enumerators="True", basic_enumerator_kwargs=D, minimize_enumerator_kwargs=D),
}


def fields(ctx, cls, want):
    """default values of the dataclass fields are the documented ones"""
    c = ctx.p.cls(cls)
    have = {s.target.id: s.value for s in c.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)}
    norm = lambda e: ast.dump(e)
    for k, v in want.items():
        if k not in have or have[k] is None:
            ctx.add("defaults", f"{cls}.{k}", "inconclusive", "no such field")
            continue
        a, b = have[k], ast.parse(v, mode="eval").body
        if isinstance(a, ast.Constant) and isinstance(b, ast.Constant):
            ctx.holds("defaults", f"{cls}.{k}", type(a.value) in (int, float) and type(b.value) in (int, float) and a.value == b.value
                      or a.value == b.value and type(a.value) is type(b.value), f"default is {ast.unparse(a)}, expected {v}", None, a.lineno)
        else:
            ok = norm(a) == norm(b)
            ctx.add("defaults", f"{cls}.{k}", "discharged" if ok else "inconclusive", f"default is {ast.unparse(a)}")


def rules(ctx):
    for c, w in FIELDS.items():
        ctx.guard("defaults", c, lambda c=c, w=w: fields(ctx, c, w))
    ctx.spec("entries", "GetEntrySetMaker", "_get_exclude_elems", """
def f(elems):
    return [str(e) for e in Element if e not in elems]
""", bad=[f"def f(elems):\n    return {x}" for x in ("[str(e) for e in Element if str(e) not in elems]", "[str(e) for e in Element if e in elems]",
          "[str(e) for e in Element if str(e) in elems]", "[str(e) for e in elems]", "[e for e in Element if e not in elems]", "[str(e) for e in Element]")])
    E = "GetEntrySetMaker"
    ctx.spec("entries", E, "make", ENTRIES, opaque=("process_entries", "_get_exclude_elems"))
    ctx.refsig.update({
        "process_entries": ["entries", "temperature", "e_above_hull", "include_nist_data", "include_freed_data", "filter_at_temperature",
                            "include_polymorphs", "formulas_to_include", "calculate_e_above_hulls", "ignore_nist_solids"]})
    for n in ("process_entries", "get_entries_in_chemsys", "search", "get_entries", "get_all_entries_in_chemsys_from_entry_db", "MPRester"):
        ctx.spec("entries", E, "make", ENTRIES, what=effects(n), opaque=("process_entries", "_get_exclude_elems"), construct=f"{E}.make:{n}")
    ctx.spec("entries", "rxn_network.jobs.utils", "get_added_elem_data", """
def f(entries, targets):
    x = entries.chemsys - {str(e) for t in targets for e in Composition(t).elements}
    return [Element(e) for e in x], "-".join(sorted(x))
""")
    M = "ReactionEnumerationMaker"
    ctx.spec("enumerate", M, "_get_metadata", META_SRC, opaque=("get_added_elem_data",),
             bad=[META_SRC.replace("sorted(entries.chemsys)", "entries.chemsys"), META_SRC.replace("sorted(targets)", "list(targets)"),
                  META_SRC.replace("if targets:", "if not targets:"), META_SRC.replace("if targets:", "if True:"), META_SRC.replace("if targets:", "if len(targets) == 1:")])
    ctx.refsig["run_enumerators"] = ["enumerators", "entries"]
    ctx.spec("enumerate", M, "make", ENUM, opaque=("_get_metadata", "run_enumerators"))
    C = "CalculateCompetitionMaker"
    for c in (C, "NetworkFlowMaker"):
        for a in ("open_elem", "open_formula"):
            ctx.spec("options", c, "__post_init__", OPEN, what=f"store:{a}", construct=f"{c}.{a}")
    ctx.refsig.update({"_get_competition_decorated_rxns": ["self", "target_rxns", "all_rxns", "num_rxns"],
                       "_get_chempot_decorated_rxns": ["self", "target_rxns", "entries"],
                       "_get_competition_decorated_rxns_by_chunk": ["rxn_chunk", "all_rxns", "open_formula"],
                       "_get_chempot_decorated_rxns_by_chunk": ["rxn_chunk", "entries", "cpd_kwargs", "open_elem", "chempot"],
                       "_get_competition_decorated_rxn": ["rxn", "competing_rxns", "precursors_list"],
                       "add_rxn_set": ["self", "rxn_set"], "get_rxns_by_product": ["self", "product", "return_set"],
                       "get_rxns_by_reactants": ["self", "reactants", "return_set"]})
    op = ("get_added_elem_data", "_get_competition_decorated_rxns", "_get_chempot_decorated_rxns", "add_rxn_set")
    ctx.spec("competition", C, "make", COMP, opaque=op)
    for n in ("_get_competition_decorated_rxns", "_get_chempot_decorated_rxns", "get_rxns_by_product", "get_rxns_by_reactants", "get_added_elem_data",
              "add_rxn_set", "ReactionSet"):
        ctx.spec("competition", C, "make", COMP, what=effects(n), opaque=op, construct=f"{C}.make:{n}")
    ctx.spec("competition", J, "_get_competition_decorated_rxn", SCORE)
    ctx.spec("competition", J, "_get_competition_decorated_rxn", SCORE, what=effects(kinds=("mut",)), construct="_get_competition_decorated_rxn:data",
             bad=vary(SCORE, (" if r != rxn]", "]"), ("others.min()", "others.max()"), ("others.min()", "others.mean()"), ("d[d > 0]", "d[d < 0]"), ("pos.max()", "pos.min()"),
                      ("if not np.isclose(others, 0.0).any():\n            others", "if True:\n            others"), ("d[d > 0]", "d"), (" if pos.any() else 0.0", ""),
                      ("r.energy_per_atom for", "r.energy for"), (" if r != rxn]", " if r == rxn]"),
                      ("if not np.isclose(others, 0.0).any():", "if np.isclose(others, 0.0).any():"), ("if not np.isclose(others, 0.0).any():", "if not np.isclose(others, 0.0).all():"),
                      ("rxn.energy_per_atom - others\n", "rxn.energy_per_atom + others\n"), ("np.append(others, 0.0)", "np.append(others, rxn.energy_per_atom)"),
                      ("rxn.energy_per_atom - others.min()", "others.min() - rxn.energy_per_atom"), ("rxn.energy_per_atom - others\n", "others - rxn.energy_per_atom\n"),
                      ("        if not np.isclose(others, 0.0).any():\n            others = np.append(others, 0.0)\n", ""), ("d[d > 0]", "d[d > 1]")))
    ctx.spec("competition", J, "_get_competition_decorated_rxn", SCORE, what=effects("decorate"), construct="_get_competition_decorated_rxn:decorate",
             bad=vary(SCORE, ("PrimaryCompetitionCalculator(irh=irh).decorate(rxn)", "rxn")) + [SCORE.replace("    return SecondaryCompetitionCalculator(irh=irh)",
                "    PrimaryCompetitionCalculator(irh=irh).decorate(rxn)\n    return SecondaryCompetitionCalculator(irh=irh)").replace("decorate(PrimaryCompetitionCalculator(irh=irh).decorate(rxn))", "decorate(rxn)")])
    op = ("_get_competition_decorated_rxn",)
    wrong = vary(SCORE_CHUNK, ("forms.copy()", "forms"), ("every.get_rxns_by_reactants(plus)", "every.get_rxns_by_reactants(forms)"), ("            continue\n", "            break\n"),
                 ("len(forms) >= 3", "len(forms) > 3"), ("len(forms) >= 3", "len(forms) >= 2"), ("list(set(forms) - {open_formula})", "list(forms)"),
                 ("rxn, comp, forms))", "rxn, comp, plus))"), ("if not rxn:", "if rxn is not None and not rxn.balanced:"))
    ctx.spec("competition", J, "_get_competition_decorated_rxns_by_chunk", SCORE_CHUNK, opaque=op, bad=wrong)
    for n in ("_get_competition_decorated_rxn", "get_rxns_by_reactants"):
        ctx.spec("competition", J, "_get_competition_decorated_rxns_by_chunk", SCORE_CHUNK, what=effects(n), opaque=op, construct="by_chunk:" + n, bad=wrong)
    wrong = vary(CPD_CHUNK, *[("calcs[cs] = calc", x) for x in ('calcs["-".join(els[:2])] = calc', "calcs[els[0]] = calc", 'calcs["-".join(sorted(els)[:2])] = calc', "calcs[rxn] = calc",
                 'calcs[entries.chemsys] = calc', 'calcs["-".join(entries.chemsys)] = calc', 'calcs["-".join(sorted(entries.chemsys))] = calc')],
                 ("set(c.split(\"-\")).issuperset(els)", "set(els).issuperset(c.split(\"-\"))"), ("set(c.split(\"-\")).issuperset(els)", "set(c.split(\"-\")).intersection(els)"),
                 ("!= oset", ">= oset"), (" if set(e.composition.elements) != oset", ""), (", reverse=True", ""),
                 ("            if open_elem:\n", "            if not open_elem:\n"), ("            if open_elem:\n", "            if open_elem and chempot:\n"), ("if set(c.", "if not set(c."),
                 ("            calcs[cs] = calc\n", ""), ("sub = entries.get_subset_in_chemsys(els)", "sub = entries"),
                 ("[*els, str(open_elem)]", "els"))
    ctx.spec("competition", J, "_get_chempot_decorated_rxns_by_chunk", CPD_CHUNK, bad=wrong)
    for n in ("from_entries", "get_subset_in_chemsys", "to_grand_entry", "decorate"):
        ctx.spec("competition", J, "_get_chempot_decorated_rxns_by_chunk", CPD_CHUNK, what=effects(n), construct="chempot by_chunk:" + n, bad=wrong)
    op = ("_get_competition_decorated_rxns_by_chunk", "_get_chempot_decorated_rxns_by_chunk")
    for name, src in (("_get_competition_decorated_rxns", COMP_PAR), ("_get_chempot_decorated_rxns", CPD_PAR)):
        ctx.spec("chunks", C, name, src, opaque=op)
        ctx.spec("chunks", C, name, src, what=effects(*op), opaque=op, construct=name + ":jobs")
        ctx.spec("chunks", C, name, src, what=effects("grouper", "options"), opaque=op, construct=name + ":splitting")
    N = "NetworkMaker"
    ctx.spec("network", N, "make", NET)
    for n in ("set_precursors", "set_target", "find_pathways", "build", "from_rxns", "filter_duplicates"):
        ctx.spec("network", N, "make", NET, what=effects(n), construct=f"{N}.make:{n}")
    S = "PathwaySolverMaker"
    ctx.refsig["get_computed_rxn"] = ["rxn", "entries", "chempots"]
    ctx.spec("solver", S, "make", SOLVE, opaque=("get_computed_rxn",))
    for n in ("solve", "get_computed_rxn"):
        ctx.spec("solver", S, "make", SOLVE, what=effects(n), opaque=("get_computed_rxn",), construct=f"{S}.make:{n}")
    POST = """
def f(self):
    n = BasicReaction.balance([Composition(r) for r in self.precursors], [Composition(p) for p in self.targets])
    if not n.balanced:
        raise ValueError("x")
    self.net_rxn = n
"""
    ctx.spec("solver", S, "__post_init__", POST, what="store:net_rxn", construct=f"{S}.net_rxn")
    ctx.spec("solver", S, "__post_init__", POST, what="raises", construct=f"{S}.__post_init__:raises")
    W = "NetworkFlowMaker"
    cond, loop = "self.use_minimize_enumerators and self.open_elem and self.chempots:", "for mu in self.chempots:"
    wrong = vary(FLOW, *[(cond, x) for x in (
        "self.open_elem and self.chempots:", "self.use_minimize_enumerators and self.chempots:",
        "self.use_minimize_enumerators and self.open_elem and any(self.chempots):", "self.use_minimize_enumerators and self.open_elem and any(self.chempots or []):",
        "self.use_minimize_enumerators and self.open_elem and self.chempots and len(self.chempots) > 1:",
        "self.use_minimize_enumerators and self.open_formula and self.chempots:", "self.use_basic_enumerators and self.open_elem and self.chempots:",
        "self.use_basic_enumerators and self.use_minimize_enumerators and self.open_elem and self.chempots:",
        "self.solver_maker and self.use_minimize_enumerators and self.open_elem and self.chempots:")],
        *[(loop, x) for x in ("for mu in self.chempots[1:]:", "for mu in self.chempots[:1]:", "for mu in set(self.chempots):", "for mu in sorted(self.chempots):",
                              "for mu in [m for m in self.chempots if m]:", "for mu in [m for m in self.chempots if m != 0]:")])
    ctx.spec("flow", W, "make", FLOW, bad=wrong)
    for n in ("make", "update_kwargs", "MinimizeGrandPotentialEnumerator", "BasicEnumerator", "BasicOpenEnumerator", "MinimizeGibbsEnumerator"):
        ctx.spec("flow", W, "make", FLOW, what=effects(n), construct=f"{W}.make:{n}", bad=wrong)
