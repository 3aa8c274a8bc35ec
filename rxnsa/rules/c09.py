"""ReactionSet: aligned storage, iteration, selection and concatenation."""

META = {
    "title": "Reaction sets keep every reaction's phases, coefficients and data aligned",
    "statement": (
        "A reaction set built from reactions yields, size by size and in order, those same reactions: each row's "
        "coefficients and data belong to exactly the entries its row of indices points to, entries being told apart by "
        "their identifier and shared in composition order. Selecting by reactants (all reactants among the given "
        "formulas), selecting by product (the formula appears on the product side), adding reactions or another set over "
        "identical entries, and counting act on whole rows and neither lose, duplicate nor mix up reactions; a set over "
        "different entries is refused. The tabulated form has one row per reaction holding that reaction's own energy, "
        "cost, uncertainty, added elements, separability, hull distances, numbers of theoretical phases and data, ordered "
        "by cost."
    ),
    "over": ["inputs", "histories"],
    "quant": "every collection of reactions of any sizes, entries and data, and every sequence of selections and additions",
    "why": "tests use one or two small homogeneous sets; misaligned rows only show for particular mixes of sizes and entries",
    "files": ["src/rxn_network/reactions/reaction_set.py"],
    "mech": [("building", "ReactionSet.__init__, from_rxns"), ("iteration", "get_rxns, _get_rxns_by_indices"),
             ("selection", "get_rxns_by_reactants, get_rxns_by_product, _get_rxn_set_by_indices"),
             ("concatenation", "add_rxns, add_rxn_set"), ("table", "to_dataframe, calculate_costs")],
}
FLOOR = 8

FIRST_ONLY = """
    product = Composition(product).reduced_formula
    want = None
    for i, e in enumerate(self.entries):
        if e.composition.reduced_formula == product:
            want = i
            break
    if not want:
        return []
    idxs = {}
    for size, ind in self.indices.items():
        idxs[size] = []
        has = np.isin(ind, want).any(axis=1)
        for k, co, ii in zip(np.argwhere(has).flatten(), self.coeffs[size][has], self.indices[size][has]):
            if want in {i for c, i in zip(co, ii) if c > -1e-12}:
                idxs[size].append(k)
"""

FROM = """
def f(cls, rxns, entries=None, open_elem=None, chempot=0.0, filter_duplicates=False):
    if not entries:
        es = set()
        for r in rxns:
            es.update(r.entries)
        entries = es
    entries = sorted(set(entries), key=lambda r: r.composition)
    def uid(entry):
        if hasattr(entry, "unique_id"):
            return entry.unique_id
        return entry if entry.entry_id is None else entry.entry_id
    where = {uid(e): i for i, e in enumerate(entries)}
    indices, coeffs, data = {}, {}, {}
    for rxn in rxns:
        size = len(rxn.entries)
        if size not in indices:
            indices[size] = []
            coeffs[size] = []
            data[size] = []
        indices[size].append([where[uid(e)] for e in rxn.entries])
        coeffs[size].append(rxn.coefficients)
        data[size].append(rxn.data)
    elems = set()
    mus = set()
    if all(r.__class__.__name__ == "OpenComputedReaction" for r in rxns) and not open_elem:
        for r in rxns:
            elems.update(r.chempots.keys())
            mus.update(r.chempots.values())
        if len(mus) == 1 and len(elems) == 1:
            chempot = mus.pop()
            open_elem = elems.pop()
    rs = cls(entries=entries, indices=indices, coeffs=coeffs, open_elem=open_elem, chempot=chempot, all_data=data)
    if filter_duplicates:
        rs = rs.filter_duplicates()
    return rs
"""

BAD_FROM = [("size = len(rxn.entries)", "size = " + x) for x in (
    "len(set(rxn.entries))", "len(set(rxn.compositions))", "len(rxn.reactants) + len(rxn.products)", "len(rxn.products) + len(rxn.reactants)",
    "len(rxn.products)", "len(rxn.reactants)", "len(rxn.elements)")] + [("""        if hasattr(entry, "unique_id"):
            return entry.unique_id
        return entry if entry.entry_id is None else entry.entry_id
""", "        return " + x + "\n") for x in (
    "entry.entry_id", "entry.composition", "entry.composition.reduced_formula", "entry.composition.reduced_composition", "entry.unique_id",
    "entry.energy", "entry.energy_per_atom", 'f"{entry.composition.reduced_formula}_{round(entry.energy_per_atom, 4)}"')]

GET = """
    for size, idx_arr in idxs.items():
        if not idx_arr:
            idx_arr = slice(0, 0)
        for ii, cc, dd in zip(self.indices[size][idx_arr], self.coeffs[size][idx_arr], self.all_data[size][idx_arr]):
            es = [self.entries[i] for i in ii]
            if self.mu_dict:
                yield OpenComputedReaction(entries=es, coefficients=cc, data=dd, chempots=self.mu_dict)
            else:
                yield ComputedReaction(entries=es, coefficients=cc, data=dd)
"""
SUB = """
    return ReactionSet(entries=self.entries, indices={s: self.indices[s][a] for s, a in idxs.items()},
        coeffs={s: self.coeffs[s][a] for s, a in idxs.items()}, open_elem=self.open_elem, chempot=self.chempot,
        all_data={s: self.all_data[s][a] for s, a in idxs.items()})
"""


def rules(ctx):
    from ..check import field

    S = "ReactionSet"
    for a in ("entries",):
        ctx.spec("store", S, "__init__", f"""
def f(self, entries, indices, coeffs, open_elem=None, chempot=0.0, all_data=None):
    self.{a} = {a}
""", what=f"store:{a}", construct=f"{S}.{a}")
    for a in ("indices", "coeffs"):
        ctx.spec("store", S, "__init__", f"""
def f(self, entries, indices, coeffs, open_elem=None, chempot=0.0, all_data=None):
    self.{a} = {a}
    if not all(isinstance(k, int) for k in {a}) or not all(isinstance(v, np.ndarray) for v in {a}.values()):
        self.{a} = {{int(size): np.array(arr) for size, arr in {a}.items()}}
""", what=f"store:{a}", construct=f"{S}.{a}")
    ctx.spec("store", S, "__init__", """
def f(self, entries, indices, coeffs, open_elem=None, chempot=0.0, all_data=None):
    if all_data is None:
        self.all_data = {int(i): np.array([{} for _ in idxs]) for i, idxs in indices.items()}
    else:
        self.all_data = all_data
    if not all(isinstance(k, int) for k in self.all_data) or not all(isinstance(v, np.ndarray) for v in self.all_data.values()):
        self.all_data = {int(size): np.array(arr) for size, arr in self.all_data.items()}
""", what="store:all_data", construct=f"{S}.all_data")
    for fld in ("entries", "indices", "coeffs", "all_data"):
        ctx.spec("build", S, "from_rxns", FROM.replace("rs = rs.filter_duplicates()", "pass"), bad=[
            FROM.replace("rs = rs.filter_duplicates()", "pass").replace(x, y) for x, y in BAD_FROM], sel=lambda t, s=field(fld): s(strip_filter(t)),
                 construct=f"{S}.from_rxns:{fld}")
    ctx.spec("build", S, "from_rxns", FROM, construct=f"{S}.from_rxns:filter", sel=lambda t: mark_filter(t))
    head = "def f(self):\n    idxs = {i: slice(0, len(c)) for i, c in self.indices.items()}\n"
    ctx.spec("rows", S, "get_rxns", head + GET, bad=[head + GET.replace("for i in ii]", "for i in " + x + "]") for x in ("sorted(ii)", "set(ii)", "ii[::-1]", "sorted(set(ii))")])
    ctx.spec("rows", S, "_get_rxns_by_indices", "def f(self, idxs):\n" + GET.replace(
        "    for size, idx_arr in idxs.items():\n        if not idx_arr:\n            idx_arr = slice(0, 0)\n", """
    for size, idx_arr in idxs.items():
        if not idx_arr:
            idx_arr = slice(0, 0)
        elif not isinstance(idx_arr, np.ndarray) and not isinstance(idx_arr, slice):
            idx_arr = np.array(idx_arr)
"""))
    ctx.spec("rows", S, "_get_rxn_set_by_indices", "def f(self, idxs):\n" + SUB)
    for name, head, src in (
        ("get_rxns_by_reactants", "def f(self, reactants, return_set=False):", """
    reactants = [Composition(r).reduced_formula for r in reactants]
    want = list({i for i, e in enumerate(self.entries) if e.composition.reduced_formula in reactants})
    if not want and not return_set:
        return []
    idxs = {}
    for size, ind in self.indices.items():
        idxs[size] = []
        has = np.isin(ind, want).any(axis=1)
        for k, co, ii in zip(np.argwhere(has).flatten(), self.coeffs[size][has], self.indices[size][has]):
            if {i for c, i in zip(co, ii) if c < 1e-12}.issubset(want):
                idxs[size].append(k)
"""), ("get_rxns_by_product", "def f(self, product, return_set=False):", """
    product = Composition(product).reduced_formula
    want = [i for i, e in enumerate(self.entries) if e.composition.reduced_formula == product]
    if not want and not return_set:
        return []
    idxs = {}
    for size, ind in self.indices.items():
        idxs[size] = []
        has = np.isin(ind, want).any(axis=1)
        for k, co, ii in zip(np.argwhere(has).flatten(), self.coeffs[size][has], self.indices[size][has]):
            if not {i for c, i in zip(co, ii) if c > -1e-12}.isdisjoint(want):
                idxs[size].append(k)
""")):
        end = """
    if return_set:
        return self._get_rxn_set_by_indices(idxs)
    return self._get_rxns_by_indices(idxs)
"""
        ctx.spec("select", S, name, head + src + end, bad=[head + FIRST_ONLY + end] if name == "get_rxns_by_product" else ())
    ctx.spec("add", S, "add_rxns", """
def f(self, rxns):
    return self.add_rxn_set(ReactionSet.from_rxns(rxns, entries=self.entries))
""")
    ctx.spec("add", S, "add_rxn_set", """
def f(self, rxn_set):
    if self.entries != rxn_set.entries:
        raise ValueError("x")
    ni, nc, nd = {}, {}, {}
    for size in set(list(self.indices.keys()) + list(rxn_set.indices.keys())):
        if size in self.indices and size in rxn_set.indices:
            ni[size] = np.concatenate((self.indices[size], rxn_set.indices[size]))
            nc[size] = np.concatenate((self.coeffs[size], rxn_set.coeffs[size]))
            nd[size] = np.concatenate((self.all_data[size], rxn_set.all_data[size]))
        elif size in self.indices:
            ni[size] = self.indices[size]
            nc[size] = self.coeffs[size]
            nd[size] = self.all_data[size]
        else:
            ni[size] = rxn_set.indices[size]
            nc[size] = rxn_set.coeffs[size]
            nd[size] = rxn_set.all_data[size]
    return ReactionSet(self.entries, ni, nc, self.open_elem, self.chempot, nd)
""")
    ctx.spec("rows", S, "__len__", "def f(self):\n    return sum(len(i) for i in self.indices.values())")
    ctx.spec("rows", S, "__iter__", "def f(self):\n    return iter(self.get_rxns())")
    ctx.spec("table", S, "calculate_costs", "def f(self, cf):\n    return [cf.evaluate(rxn) for rxn in self.get_rxns()]")
    ctx.spec("table", S, "to_dataframe", TABLE)
    ctx.spec("table", S, "_get_added_elems", """
def f(rxn, target):
    target = Composition(target)
    p = "total_chemical_system" if rxn.__class__.__name__ == "OpenComputedReaction" else "chemical_system"
    return "-".join(sorted(set(getattr(rxn, p).split("-")) - set(target.chemical_system.split("-"))))
""")


TABLE = """
def f(self, cost_function, target=None, calculate_uncertainties=False, calculate_separable=False):
    data = OrderedDict({k: [] for k in ["rxn", "energy"]})
    attrs = []
    hulls = False
    theo = False
    for r in self.get_rxns():
        attrs = list(r.data.keys())
        d = r.entries[0].data
        if d.get("e_above_hull") is not None:
            hulls = True
            data["max_e_hull_reactants"] = []
            data["max_e_hull_products"] = []
        if "icsd_ids" in d or "theoretical" in d:
            theo = True
            data["num_theoretical_reactants"] = []
            data["num_theoretical_products"] = []
        break
    target = Composition(target) if target else None
    if "num_constraints" in attrs:
        attrs.remove("num_constraints")
    if calculate_uncertainties:
        data["dE"] = []
    if target:
        data["added_elems"] = []
        if calculate_separable:
            data["separable"] = []
    data["max_num_precursor_elems"] = []
    data.update({k: [] for k in [*attrs, "cost"]})
    for rxn in self.get_rxns():
        data["rxn"].append(rxn)
        data["energy"].append(rxn.energy_per_atom)
        if calculate_uncertainties:
            data["dE"].append(rxn.energy_uncertainty_per_atom)
        if target:
            data["added_elems"].append(self._get_added_elems(rxn, target))
            if calculate_separable:
                data["separable"].append(rxn.is_separable(target))
        if hulls:
            data["max_e_hull_reactants"].append(max(e.data.get("e_above_hull", 0.0) or 0.0 for e in rxn.reactant_entries))
            data["max_e_hull_products"].append(max(e.data.get("e_above_hull", 0.0) or 0.0 for e in rxn.product_entries))
        if theo:
            data["num_theoretical_reactants"].append(sum(bool(not e.is_experimental) for e in rxn.reactant_entries))
            data["num_theoretical_products"].append(sum(bool(not e.is_experimental) for e in rxn.product_entries))
        data["max_num_precursor_elems"].append(max(len(p.elements) for p in rxn.reactants))
        for attr in attrs:
            data[attr].append(rxn.data.get(attr))
        data["cost"].append(cost_function.evaluate(rxn))
    return DataFrame(data).sort_values("cost").reset_index(drop=True)
"""


def is_filter(l):
    return l.op == "meth" and l.args[0].op == "new" or (l.op == "call" and l.args[0].op == "meth" and l.args[0].args[0].op == "new")


def base_new(l):
    from .. import terms as X

    return next((t for t in X.subterms(l) if t.op == "new"), None)


def strip_filter(t):
    from .. import terms as X

    def f(l):
        if l.op == "new":
            return l
        if l.op == "call" and l.args and l.args[0].op == "meth" and l.args[0].args[0].op == "new":
            return l.args[0].args[0]
        return l

    return X.map_leaves(t, f)


def mark_filter(t):
    from .. import terms as X

    def f(l):
        if l.op == "new":
            return X.const("plain")
        if l.op == "call" and l.args and l.args[0].op == "meth" and l.args[0].args[0].op == "new":
            return X.const("filtered") if l.args[0].args[1] == "filter_duplicates" or "filter_duplicates" in X.show(l.args[0], 2) else l
        return l

    return X.map_leaves(t, f)
