"""Pathway solver."""

META = {
    "title": "Solved pathways mass-balance to the net reaction with correct costs",
    "statement": (
        "Every pathway the solver returns is a combination of at most the requested number of distinct known or intermediate "
        "reactions, with strictly positive multiplicities, whose weighted sum equals the net reaction phase by phase within "
        "tolerance; every such combination found is kept unless interdependency filtering excludes it. Each step is paired "
        "with its own cost, the requested options (open element, chemical potential, energy cutoff, enumerators, tolerance, "
        "chunking) reach the place that uses them, the net reaction itself is never a step, results do not depend on "
        "chunk or batch sizes or CPU count, and they come without duplicates, cheapest first."
    ),
    "over": ["inputs", "schedules"],
    "quant": "every set of pathways, net reaction, option and number of CPUs and chunks",
    "why": "the tests solve one fixture problem; they cannot compare chunkings, options or acceptance conditions",
    "files": ["src/rxn_network/pathways/solver.py"],
    "mech": [("acceptance", "_balance_path_arrays_cpu"), ("assembly", "PathwaySolver.solve, _create_comp_matrices"),
             ("intermediates", "PathwaySolver._find_intermediate_rxns")],
}
FLOOR = 8

INIT = """
def f(self, pathways, entries, cost_function, open_elem=None, chempot=0.0, chunk_size=100000, batch_size=None):
    super().__init__(pathways=deepcopy(pathways))
    self._entries = entries
    self.cost_function = cost_function
    self.open_elem = Element(open_elem) if open_elem else None
    self.chempot = chempot
    self.chunk_size = chunk_size
    self.batch_size = batch_size
"""

SOLVE = """
def f(self, net_rxn, max_num_combos=4, find_intermediate_rxns=True, intermediate_rxn_energy_cutoff=0.0, use_basic_enumerator=True,
      use_minimize_enumerator=False, filter_interdependent=True):
    if not net_rxn.balanced:
        raise ValueError("x")
    if not ray.is_initialized():
        initialize_ray()
    entries = deepcopy(self.entries).entries_list
    n_ent = len(entries)
    reactions = deepcopy(self.reactions)
    costs = deepcopy(self.costs)
    precursors = deepcopy(net_rxn.reactant_entries)
    targets = deepcopy(net_rxn.product_entries)
    if find_intermediate_rxns:
        inter = self._find_intermediate_rxns(targets, intermediate_rxn_energy_cutoff, use_basic_enumerator, use_minimize_enumerator)
        icosts = [self.cost_function.evaluate(r) for r in inter.get_rxns()]
        for r, c in zip(inter, icosts):
            if r not in reactions:
                reactions.append(r)
                costs.append(c)
    clean = ReactionSet.from_rxns(reactions, filter_duplicates=True)
    cleaned = [(r, c) for r, c in zip(reactions, costs) if r in clean and r != net_rxn]
    crxns = [r for r, _ in cleaned]
    ccosts = [c for _, c in cleaned]
    vec = net_rxn.get_entry_idx_vector(n_ent)
    num = len(crxns)
    num_cpus = ray.cluster_resources()["CPU"]
    batch_size = self.batch_size or max(num_cpus - 1, 1)
    filt = ray.put(np.argwhere(vec != 0).flatten())
    ref = ray.put(crxns)
    mats = {n: [] for n in range(1, max_num_combos + 1)}
    refs = {}
    for n in range(1, max_num_combos + 1):
        refs[n] = []
        for group in grouper(combinations(range(num), n), self.chunk_size):
            refs[n].append(_create_comp_matrices.remote(group, ref, n_ent, filt))
    num_objs = sum(len(i) for i in refs.values())
    with tqdm(total=num_objs) as pbar:
        for n, rs in refs.items():
            for x in to_iterator(rs):
                pbar.update(1)
                mats[n].append(x)
            if not mats[n]:
                del mats[n]
                continue
            mats[n] = np.concatenate(mats[n])
            if not mats[n].any():
                del mats[n]
    jobs = 0
    out = []
    orefs = []
    num_jobs = sum(len(val) // self.chunk_size + 1 for val in mats.values())
    num_batches = int(num_jobs // batch_size + 1)
    bc = 1
    for n, m in mats.items():
        if n >= 4:
            splits = np.array_split(m, len(m) // self.chunk_size + 1)
        else:
            splits = [m]
        for group in splits:
            if len(group) == 0:
                continue
            jobs += 1
            orefs.append(_balance_path_arrays_cpu_wrapper.remote(group, vec))
            if len(orefs) >= batch_size:
                for x in tqdm(to_iterator(orefs), total=len(orefs), desc="x"):
                    out.append(x)
                bc += 1
                jobs = 0
                orefs = []
    for x in tqdm(to_iterator(orefs), total=len(orefs), desc="x"):
        out.append(x)
    c_mats = [mat for mats, _ in out for mat in mats if mat is not None]
    m_mats = [mat for _, mats in out for mat in mats if mat is not None]
    paths = []
    for c_mat, m_mat in zip(c_mats, m_mats):
        rl, cl = [], []
        for row in c_mat:
            ents, coeffs = zip(*[(entries[idx], c) for idx, c in enumerate(row) if not np.isclose(c, 0.0)])
            if self.open_elem is not None:
                rxn = OpenComputedReaction(entries=ents, coefficients=coeffs, chempots={self.open_elem: self.chempot})
            else:
                rxn = ComputedReaction(entries=ents, coefficients=coeffs)
            rl.append(rxn)
            if rxn in crxns:
                cl.append(ccosts[crxns.index(rxn)])
            else:
                cl.append(self.cost_function.evaluate(rxn))
        paths.append(BalancedPathway(rl, m_mat.flatten(), cl, balanced=True))
    if filter_interdependent:
        pc = [p.composition.reduced_composition for p in precursors]
        res = [p for p in paths if not p.contains_interdependent_rxns(pc)]
    else:
        res = paths
    return PathwaySet.from_paths(sorted(set(res), key=lambda p: p.average_cost))
"""

INTER = """
def f(self, targets, energy_cutoff, use_basic_enumerator, use_minimize_enumerator):
    inter = {e for rxn in self.reactions for e in rxn.entries}
    inter = GibbsEntrySet(list(inter) + targets)
    tf = [e.composition.reduced_formula for e in targets]
    inter = inter | {e for e in self.entries if e.is_element}
    rs = ReactionSet(inter.entries_list, {}, {}, open_elem=self.open_elem, chempot=self.chempot, all_data={})
    if use_basic_enumerator:
        rs = rs.add_rxn_set(BasicEnumerator(targets=tf).enumerate(inter))
        if self.open_elem:
            boe = BasicOpenEnumerator(open_phases=[Composition(str(self.open_elem)).reduced_formula], targets=tf)
            rs = rs.add_rxn_set(boe.enumerate(inter))
    if use_minimize_enumerator:
        rs = rs.add_rxn_set(MinimizeGibbsEnumerator(targets=tf).enumerate(inter))
        if self.open_elem:
            rs = rs.add_rxn_set(MinimizeGrandPotentialEnumerator(open_elem=self.open_elem, mu=self.chempot, targets=tf).enumerate(inter))
    rxns = list(filter(lambda x: x.energy_per_atom < energy_cutoff, rs))
    rxns = [r for r in rxns if all(e in inter for e in r.entries)]
    return ReactionSet.from_rxns(rxns, filter_duplicates=True)
"""

BAL = """
def f(comp_matrices, net_coeffs, tol=1e-6):
    shape = comp_matrices.shape
    filt = np.argwhere(net_coeffs != 0).flatten()
    nf = len(filt)
    mult = np.zeros((shape[0], shape[1]), np.float64)
    ok = np.full(shape[0], fill_value=False)
    for i in range(shape[0]):
        correct = True
        for j in range(nf):
            idx = filt[j]
            if not comp_matrices[i][:, idx].any():
                correct = False
                break
        if not correct:
            continue
        pinv = np.linalg.pinv(comp_matrices[i]).T
        m = pinv @ net_coeffs
        solved = comp_matrices[i].T @ m
        if (m < tol).any():
            continue
        if not (np.abs(solved - net_coeffs) <= (1e-08 + 1e-05 * np.abs(net_coeffs))).all():
            continue
        mult[i] = m
        ok[i] = True
    fi = np.argwhere(ok != 0).flatten()
    n = fi.shape[0]
    a = np.empty((n, shape[1], shape[2]), np.float64)
    b = np.empty((n, shape[1]), np.float64)
    for i in range(n):
        idx = fi[i]
        a[i] = comp_matrices[idx]
        b[i] = mult[idx]
    return a, b
"""


def rules(ctx):
    S, M = "PathwaySolver", "pathways.solver"
    for a in ("entries", "cost_function", "open_elem", "chempot", "chunk_size", "batch_size"):
        ctx.spec("options", S, "__init__", INIT, what=f"store:{'_entries' if a == 'entries' else a}", construct=f"{S}.{a}")
    SI = """
def f(self, pathways):
    self._pathways = pathways
    rxns = []
    costs = []
    for path in self._pathways.paths:
        for rxn, cost in zip(path.reactions, path.costs):
            if rxn not in rxns:
                rxns.append(rxn)
                costs.append(cost)
    self._reactions = rxns
    self._costs = costs
"""
    for a in ("pathways", "reactions", "costs"):
        ctx.spec("pairing", "Solver", "__init__", SI, what=f"store:_{a}", construct=f"Solver.{a}")
        ctx.spec("pairing", "Solver", a, f"def f(self):\n    return self._{a}")
    ctx.spec("pairing", "Solver", "num_rxns", "def f(self):\n    return len(self.reactions)")
    ctx.spec("pairing", "Solver", "num_entries", "def f(self):\n    return len(self._entries)")
    old = SOLVE.replace("""    c_mats = [mat for mats, _ in out for mat in mats if mat is not None]
    m_mats = [mat for _, mats in out for mat in mats if mat is not None]
""", """    c_mats, m_mats = zip(*out)
    c_mats = [mat for mats in c_mats for mat in mats if mat is not None]
    m_mats = [mat for mats in m_mats for mat in mats if mat is not None]
""")
    old2 = old.replace("""    cleaned = [(r, c) for r, c in zip(reactions, costs) if r in clean and r != net_rxn]
    crxns = [r for r, _ in cleaned]
    ccosts = [c for _, c in cleaned]
""", """    crxns, ccosts = zip(*[(r, c) for r, c in zip(reactions, costs) if r in clean and r != net_rxn])
""")
    old3 = old2.replace("""            if not mats[n]:
                del mats[n]
                continue
""", "")
    ctx.spec("solve", S, "solve", SOLVE, bad=[old, old2, old3])
    from rxnsa.check import effects, folds

    cut = ("fold", "to_iterator", "from_rxns", "_find_intermediate_rxns")
    ctx.spec("solve", S, "solve", SOLVE, cut=cut, construct=f"{S}.solve:assembly")
    ctx.spec("solve", S, "solve", SOLVE, what=folds("to_iterator", "from_rxns", "_find_intermediate_rxns"), construct=f"{S}.solve:loops")
    for fn in ("from_rxns", "get_entry_idx_vector", "evaluate", "from_paths", "contains_interdependent_rxns"):
        ctx.spec("solve", S, "solve", SOLVE, what=effects(fn), cut=cut, construct=f"{S}.solve:{fn}")
    ctx.spec("solve", S, "solve", SOLVE, what=effects("remote"), cut=cut, construct=f"{S}.solve:jobs")
    ctx.spec("solve", S, "solve", SOLVE, what=effects("_find_intermediate_rxns"), construct=f"{S}.solve:intermediates")
    ctx.spec("solve", S, "solve", SOLVE, what=effects("BalancedPathway"), cut=cut, construct=f"{S}.solve:pathways")
    ctx.spec("intermediates", S, "_find_intermediate_rxns", INTER)
    ctx.spec("accept", M, "_balance_path_arrays_cpu", BAL)
    ctx.spec("accept", M, "_balance_path_arrays_cpu_wrapper", "def f(comp_matrices, net_rxn_vector):\n    return _balance_path_arrays_cpu(comp_matrices, net_rxn_vector)")
    ctx.spec("matrix", M, "_create_comp_matrices", """
def f(combos, rxns, num_entries, net_coeff_filter):
    m = np.stack([np.vstack([rxns[r].get_entry_idx_vector(num_entries) for r in combo]) for combo in combos if combo])
    return m[m[:, :, net_coeff_filter].any(axis=1).all(axis=1)]
""")
