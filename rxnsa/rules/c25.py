"""Analysing results: the Pareto front, reaction tables, pathway plotting data and the database query."""

META = {
    "title": "Result analysis keeps exactly the non-dominated or matching reactions",
    "statement": (
        "The Pareto front of a reaction table holds every row that no other row beats on all the requested metrics (each "
        "minimised, or each maximised when asked) and leaves the table unchanged; filtering a table by precursors keeps exactly "
        "the rows whose reactants are all available. The scatter plot marks the front over exactly the columns it plots. "
        "The energy cascade of a pathway weights each phase by its amount and atoms, per atom present, relative to the ground "
        "state at that temperature and composition, and a database query asks for exactly the requested target and conditions."
    ),
    "over": ["inputs", "configurations"],
    "quant": "every reaction table, choice of metrics, precursor list, phase evolution and query",
    "why": "no test covers the Pareto front or the table filters; the plotting test only checks that nothing raises",
    "files": ["src/rxn_network/costs/pareto.py", "src/rxn_network/reactions/plotting.py", "src/rxn_network/pathways/plotting.py",
              "src/rxn_network/utils/database.py"],
    "mech": [("Pareto front", "get_pareto_front, is_pareto_efficient"), ("table filter", "filter_df_by_precursors"),
             ("cascade", "PathwayPlotter"), ("query", "get_rxns_from_db")],
}
FLOOR = 8


def rules(ctx):
    from ..check import effects, folds, vary

    P = "rxn_network.costs.pareto"
    EFF = """
def f(costs, return_mask=True):
    keep = np.arange(costs.shape[0])
    n = costs.shape[0]
    i = 0
    while i < len(costs):
        m = np.any(costs < costs[i], axis=1)
        m[i] = True
        keep = keep[m]
        costs = costs[m]
        i = np.sum(m[:i]) + 1
    if return_mask:
        out = np.zeros(n, dtype=bool)
        out[keep] = True
        return out
    return keep
"""
    ctx.spec("front", P, "is_pareto_efficient", EFF, bad=vary(
        EFF, ("costs < costs[i]", "costs <= costs[i]"), ("costs < costs[i]", "costs > costs[i]"), ("np.any(", "np.all("),
        ("        m[i] = True\n", ""), ("        m[i] = True\n", "        m[0] = True\n"), ("np.sum(m[:i]) + 1", "np.sum(m[:i])"),
        ("np.sum(m[:i]) + 1", "i + 1"), ("np.sum(m[:i]) + 1", "np.sum(m) + 1"), ("np.sum(m[:i]) + 1", "np.sum(m[:i + 1]) + 1"),
        ("        keep = keep[m]\n", ""), ("        costs = costs[m]\n", ""), ("np.zeros(n", "np.ones(n"), ("axis=1", "axis=0"),
        ("        costs = costs[m]\n        i = np.sum(m[:i]) + 1\n", "        i = np.sum(m[:i]) + 1\n"),
        ("    i = 0\n", "    i = 1\n"), ("while i < len(costs)", "while i < len(costs) - 1"), ("while i < len(costs)", "while i < n - 1"),
        ("out[keep] = True", "out[:len(keep)] = True"), ("out[keep] = True", "out[keep[1:]] = True"), ("    return keep\n", "    return costs\n"))
        + [EFF.replace("n = costs.shape[0]", "n = costs.shape[1]"), EFF.replace("costs.shape[0]", "costs.shape[1]")])
    FRONT = """
def f(df, metrics=("energy", "primary_competition", "secondary_competition"), maximize=False):
    pts = df[list(metrics)].to_numpy()
    if maximize:
        pts = pts * -1
    return df[is_pareto_efficient(pts, return_mask=True)]
"""
    ctx.spec("front", P, "get_pareto_front", FRONT, opaque=("is_pareto_efficient",), bad=vary(
        FRONT, ("pts = pts * -1", "pts[:, 1:] = pts[:, 1:] * -1"), ("pts = pts * -1", "pts[:, 0] = pts[:, 0] * -1"),
        ("pts = pts * -1", "pts[:, :1] = pts[:, :1] * -1"), ("pts = pts * -1", "pts = abs(pts)"),
        ("pts = pts * -1", "pts = np.abs(pts)"), ("if maximize:", "if not maximize:"), ("    if maximize:\n        pts = pts * -1\n", ""),
        ("list(metrics)", "list(metrics[:2])"), ("list(metrics)", "list(metrics[1:])"), ("df[list(metrics)]", "df"),
        ("return_mask=True", "return_mask=False"), ("df[is_p", "df[~is_p"),
        ("    return df[is", "    df = df[list(metrics)]\n    return df[is")))
    ctx.spec("front", P, "get_pareto_front", FRONT, what=effects(kinds=("mut",)), construct="get_pareto_front:table untouched")

    R = "rxn_network.reactions.plotting"
    FILT = """
def f(df, precursors):
    df = df.copy()
    df["precursors"] = [sorted([r.reduced_formula for r in rxn.reactants]) for rxn in df["rxn"]]
    return df[df["precursors"].apply(lambda x: all(p in precursors for p in x))].drop(columns=["precursors"])
"""
    ctx.spec("filter", R, "filter_df_by_precursors", FILT, bad=vary(
        FILT, ("rxn.reactants", "rxn.products"), ("rxn.reactants", "rxn.compositions"), ("all(p in", "any(p in"),
        ("p in precursors for p in x", "p in x for p in precursors"), ("p in precursors", "p not in precursors"),
        ("lambda x: all(p in precursors for p in x)", "lambda x: x == sorted(precursors)"),
        ("lambda x: all(p in precursors for p in x)", "lambda x: x[0] in precursors"),
        ("r.reduced_formula", "r.formula"), ('.drop(columns=["precursors"])', ""), ('.drop(columns=["precursors"])', '.drop(columns=["rxn"])')))
    ctx.spec("filter", R, "filter_df_by_precursors", FILT, what=effects(kinds=("mut",)), construct="filter_df_by_precursors:table untouched")
    MARK = """
def f(df, x="secondary_competition", y="energy", z=None, color=None, plot_pareto=True):
    df = df.copy()
    df["rxn"] = df["rxn"].astype(str)
    if "added_elems" in df:
        df["has_added_elems"] = df["added_elems"] != ""
    cols = (x, y)
    if z is not None:
        cols = (x, y, z)
    if plot_pareto:
        get_pareto_front(df, metrics=cols)
"""
    ctx.spec("front", R, "plot_reaction_scatter", MARK, what=effects("get_pareto_front"), opaque=("get_pareto_front",),
             construct="plot_reaction_scatter:front", bad=vary(
        MARK, ("df, metrics=cols", "df, metrics=(x, y)"), ("df, metrics=cols", "df"), ("df, metrics=cols", "df, metrics=cols[:2]"),
        ("df, metrics=cols", "df, metrics=cols, maximize=True"), ("cols = (x, y, z)", "cols = (y, z)"), ("if plot_pareto", "if not plot_pareto")))

    ctx.spec("filter", R, "plot_reaction_scatter", MARK, what=effects(kinds=("mut",), of="df"), opaque=("get_pareto_front",),
             construct="plot_reaction_scatter:table untouched")
    PTS = """
def f(df, x="secondary_competition", y="energy", z=None, color=None, plot_pareto=True):
    cols = (x, y)
    if z is not None:
        cols = (x, y, z)
    df = df.copy()
    df["rxn"] = df["rxn"].astype(str)
    if "added_elems" in df:
        df["has_added_elems"] = df["added_elems"] != ""
    if plot_pareto:
        p = get_pareto_front(df, metrics=cols)
        arr = p[list(cols)].to_numpy()
        if z is None:
            go.Scatter(x=arr[:, 0], y=arr[:, 1], hovertext=p["rxn"], marker={"size": 10, "color": "seagreen", "symbol": "diamond"},
                mode="markers", name="Pareto front")
        else:
            go.Scatter3d(x=arr[:, 0], y=arr[:, 1], z=arr[:, 2], hovertext=p["rxn"],
                marker={"size": 10, "color": "seagreen", "symbol": "diamond"}, mode="markers", name="Pareto front")
"""
    for fn in ("Scatter", "Scatter3d"):
        ctx.spec("front", R, "plot_reaction_scatter", PTS, what=effects(fn, only=("x", "y", "z", "hovertext")), opaque=("get_pareto_front",),
                 construct=f"plot_reaction_scatter:{fn}")
    ALL = """
def f(df, x="secondary_competition", y="energy", z=None, color=None, plot_pareto=True):
    cols = (x, y)
    if z is not None:
        cols = (x, y, z)
    df = df.copy()
    df["rxn"] = df["rxn"].astype(str)
    if "added_elems" in df:
        df["has_added_elems"] = df["added_elems"] != ""
    if plot_pareto:
        p = get_pareto_front(df, metrics=cols)
        df = df.loc[~df.index.isin(p.index)]
    if z is None:
        px.scatter(df, x=x, y=y, hover_name="rxn", color=color)
    else:
        px.scatter_3d(df, x=x, y=y, z=z, hover_name="rxn", color=color)
"""
    for fn in ("scatter", "scatter_3d"):
        ctx.spec("front", R, "plot_reaction_scatter", ALL, what=effects(fn, only=("x", "y", "z", "hover_name", "color")),
                 opaque=("get_pareto_front",), construct=f"plot_reaction_scatter:{fn}")

    W = "PathwayPlotter"
    PH = """
def f(self):
    d = pd.DataFrame(self._phase_amounts, index=self._temps)
    if self._apply_smoothing:
        d = d.apply(median_filter, axis=0, size=3)
    return d
"""
    ctx.spec("cascade", W, "_get_phase_df", PH, bad=vary(PH, ("axis=0", "axis=1"), ("if self", "if not self"), (", index=self._temps", "")))
    AT = """
def f(self):
    out = {str(e): [] for e in self.elems}
    for i, n in enumerate(self.df.columns):
        comp = Composition(n)
        for el in out:
            out[el].append(self.df.iloc[:, i] * comp.get_el_amt_dict().get(el, 0))
    for el in out:
        out[el] = sum(out[el])
    return pd.DataFrame(out)
"""
    ctx.spec("cascade", W, "_get_num_atoms_df", AT)
    ctx.spec("cascade", W, "_get_num_atoms_df", AT, what=folds())
    ctx.spec("cascade", W, "elems", "def f(self):\n    return list({e for n in self.formulas for e in Composition(n).elements})")
    COMP = """
def f(self):
    return pd.Series([Composition(i).fractional_composition for i in self.num_atoms_df.to_dict("records")], index=self.num_atoms_df.index)
"""
    ctx.spec("cascade", W, "compositions", COMP, bad=vary(
        COMP, (".fractional_composition", ""), (".fractional_composition", ".reduced_composition"), (", index=self.num_atoms_df.index", "")))
    EN = """
def f(self, entries):
    out = {}
    for t in self.df.index:
        out[t] = {}
        gibbs = GibbsEntrySet.from_computed_entries(entries, t)
        pd = PhaseDiagram(gibbs)
        out[t]["ground_state"] = pd.get_hull_energy(self.compositions[t])
        for n in self.df.columns.to_list():
            comp = Composition(n)
            out[t][n] = pd.get_form_energy_per_atom(gibbs.get_min_entry_by_formula(comp.formula)) * comp.num_atoms
    return out
"""
    ctx.spec("cascade", W, "_get_energies", EN, alts=[EN.replace("get_min_entry_by_formula(comp.formula)", m) for m in
             ("get_min_entry_by_formula(comp.reduced_formula)", "get_min_entry_by_formula(n)")], bad=vary(
        EN, ("comp.num_atoms\n", "1\n"), ("* comp.num_atoms", ""), ("comp.num_atoms", "comp.reduced_composition.num_atoms"), ("(n)\n", "(n).reduced_composition\n"),
        ("get_form_energy_per_atom(gibbs.get_min_entry_by_formula(comp.formula))", "get_form_energy(gibbs.get_min_entry_by_formula(comp.formula))"),
        ("pd.get_form_energy_per_atom(gibbs.get_min_entry_by_formula(comp.formula))", "gibbs.get_min_entry_by_formula(comp.formula).energy_per_atom"),
        ("pd.get_hull_energy", "pd.get_hull_energy_per_atom"), ("(entries, t)", "(entries, self.df.index[0])"), ("(entries, t)", "(entries, 300)")))
    CAS = """
def f(self, entries):
    e = pd.DataFrame(self._get_energies(entries)).T
    g = e.pop("ground_state")
    arr = self.df.values * e.values / self.num_atoms_df.sum(axis=1).values.reshape(-1, 1)
    total = pd.DataFrame(arr, columns=self.df.columns, index=self.df.index).sum(axis=1) - g
    return total.plot(backend="matplotlib", style="o")
"""
    ctx.spec("cascade", W, "plot_energy_cascade", CAS, opaque=("_get_energies",), bad=vary(
        CAS, (" / self.num_atoms_df.sum(axis=1).values.reshape(-1, 1)", ""), (" - g\n", "\n"), (" - g\n", " + g\n"), ("sum(axis=1).values", "sum(axis=0).values"),
        ("self.df.values * ", ""), (".sum(axis=1) - g", ".sum(axis=0) - g"), (").T", ")")))

    Q = "rxn_network.utils.database"
    QUERY = """
def f(target, open_elem=None, chempot=0.0, fw_id=None):
    store = SETTINGS.JOB_STORE
    store.connect()
    q = {"output.target_formula": Composition(target).reduced_formula, "output.open_elem": open_elem, "output.chempot": chempot}
    if fw_id is not None:
        q["metadata.fw_id"] = fw_id
    data = store.query_one(q, sort={"completed_at": -1}, load=True)
    if not data:
        raise ValueError("x")
    data = MontyDecoder().process_decoded(data["output"])
    rxns = data.rxns
    if open_elem is not None:
        rxns = ReactionSet.from_rxns(rxns, open_elem=open_elem, chempot=chempot)
    return rxns
"""
    BADQ = vary(
        QUERY, ('"completed_at": -1', '"completed_at": 1'), ('"output.chempot": chempot', '"output.chempot": 0.0'),
        ("if open_elem is not None", "if open_elem is None"), (", chempot=chempot)\n    return", ")\n    return"),
        ("if fw_id is not None:\n", "if fw_id:\n"), ('Composition(target).reduced_formula', "target"), (", load=True", ""),
        ('"output.open_elem": open_elem, ', ""), (', "output.chempot": chempot', ""))
    ctx.spec("query", Q, "get_rxns_from_db", QUERY, bad=BADQ)
    ctx.spec("query", Q, "get_rxns_from_db", QUERY, what=effects("query_one"), construct="get_rxns_from_db:query", bad=BADQ)
