"""Chemical potential diagrams and expanded phase diagrams."""

META = {
    "title": "Chemical potential domains follow the diagram's entries and leave it unchanged",
    "statement": (
        "A chemical potential diagram's domains are bounded by the hyperplanes of exactly the lowest-energy entries that are stable "
        "with respect to the elements, plus the elemental limits, with every intersection point assigned to each non-border hyperplane "
        "it lies on; a metastable domain is that of the phase when just barely stabilised in a diagram with all other entries, and "
        "calculating it, in whatever order, changes no entry of the diagram and no later answer. The distance between two phases is "
        "the smallest distance between points of their domains plus the requested offset, whether the phases are stable or metastable, "
        "and the offset of a stable lowest-energy entry is zero. Expanding entries into phase diagrams covers every entry with a diagram "
        "that holds all entries of its chemical system."
    ),
    "over": ["inputs", "histories"],
    "quant": "every set of entries, pair of formulas, order of requests and limits",
    "why": "tests compute one distance and one metastable domain on one system",
    "files": ["src/rxn_network/thermo/chempot_diagram.py", "src/rxn_network/thermo/utils.py"],
    "mech": [("domains", "ChemicalPotentialDiagram._get_domains, _get_hyperplanes_and_entries, _get_hyperplane"),
             ("metastable domains", "ChemicalPotentialDiagram._get_metastable_domain"),
             ("distance", "shortest_domain_distance, get_offset"), ("expanded diagrams", "expand_pd")],
}
FLOOR = 10

META_DOM = """
def f(self, formula, tol=1e-5):
    if formula in self._metastable_domains:
        return self._metastable_domains[formula]
    o = self._entry_set.get_min_entry_by_formula(formula)
    n = self._entry_set.get_stabilized_entry(o, tol=tol)
    cpd = ChemicalPotentialDiagram([*self._entry_set, n], default_min_limit=-500)
    try:
        dom = cpd.domains[formula]
    except KeyError as exc:
        n = self._entry_set.get_stabilized_entry(o, tol=1e-2, force=True)
        cpd = ChemicalPotentialDiagram([*self._entry_set, n], default_min_limit=-500)
        try:
            dom = cpd.domains[formula]
        except KeyError:
            raise ValueError("x") from exc
    self._metastable_domains[formula] = dom
    return dom
"""

INIT = """
def f(self, entries, limits=None, default_min_limit=-100.0):
    self.entries = sorted(entries, key=lambda e: e.composition.reduced_formula)
    self._entry_set = GibbsEntrySet(self.entries)
    self.limits = limits
    self.default_min_limit = default_min_limit
    self.elements = sorted({els for e in self.entries for els in e.composition.elements})
    self.dim = len(self.elements)
    self._min_entries, self._el_refs = self._get_min_entries_and_el_refs(self.entries)
    self._entry_dict = {e.composition.reduced_formula: e for e in self._min_entries}
    self._border_hyperplanes = self._get_border_hyperplanes()
    (self._hyperplanes, self._hyperplane_entries) = self._get_hyperplanes_and_entries()
    if self.dim < 2:
        raise ValueError("x")
    if len(self.el_refs) != self.dim:
        raise ValueError("x")
    self._hs_int = self._get_halfspace_intersection()
    n = len(self._hyperplanes)
    self._border_hyperplane_indices = list(range(n, n + len(self._border_hyperplanes)))
    self._metastable_domains = {}
"""


def rules(ctx):
    from ..check import effects, vary

    S = "ChemicalPotentialDiagram"
    ctx.spec("domains", S, "_get_hyperplane", """
def f(self, entry):
    return np.array([entry.composition.get_atomic_fraction(el) for el in self.elements] + [-entry.energy_per_atom])
""")
    ctx.spec("domains", S, "_get_hyperplanes_and_entries", """
def f(self):
    data = np.array([self._get_hyperplane(e) for e in self._min_entries])
    vec = [self.el_refs[el].energy_per_atom for el in self.elements] + [1]
    form_e = -np.dot(data, vec)
    inds = np.where(form_e < -PhaseDiagram.formation_energy_tol)[0].tolist()
    inds.extend([self._min_entries.index(el) for el in self.el_refs.values()])
    return data[inds], [self._min_entries[i] for i in inds]
""")
    ctx.spec("domains", S, "_get_halfspace_intersection", """
def f(self):
    return HalfspaceIntersection(np.vstack([self._hyperplanes, self._border_hyperplanes]), np.min(self.lims, axis=1) + 1e-1)
""")
    DOM = """
def f(self):
    domains = {e.composition.reduced_formula: [] for e in self._hyperplane_entries}
    for x, facet in zip(self.hs_int.intersections, self.hs_int.dual_facets, strict=False):
        for v in facet:
            if v not in self._border_hyperplane_indices:
                domains[self._hyperplane_entries[v].composition.reduced_formula].append(x)
    return {k: np.array(v) for k, v in domains.items() if v}
"""
    ctx.spec("domains", S, "_get_domains", DOM, bad=vary(DOM, *[("v not in self._border_hyperplane_indices", x) for x in ("v <= len(self._border_hyperplane_indices)",
             "v < len(self._border_hyperplane_indices)", "v <= len(self._border_hyperplanes)", "v >= len(self._border_hyperplane_indices)", "v in self._border_hyperplane_indices",
             "x not in self._border_hyperplane_indices", "v <= min(self._border_hyperplane_indices)")], (" if v}", "}"), (" if v}", " if len(v) > 1}")))
    ctx.spec("domains", S, "domains", "def f(self):\n    return self._get_domains()")
    ctx.spec("domains", S, "hs_int", "def f(self):\n    return self._hs_int")
    for a in ("entries", "_entry_set", "limits", "default_min_limit", "elements", "dim", "_min_entries", "_el_refs", "_entry_dict",
              "_border_hyperplanes", "_hyperplanes", "_hyperplane_entries", "_hs_int", "_border_hyperplane_indices", "_metastable_domains"):
        ctx.spec("setup", S, "__init__", INIT, what="store:" + a, construct=f"{S}.{a}",
                 opaque=("_get_hyperplanes_and_entries", "_get_halfspace_intersection"))
    ctx.spec("setup", S, "__init__", INIT, what="raises", construct=S + ".__init__:raises")
    ctx.spec("metastable", S, "_get_metastable_domain", META_DOM, bad=vary(META_DOM,
             ("if formula in self._metastable_domains:\n        return self._metastable_domains[formula]", "if self._metastable_domains:\n        return next(iter(self._metastable_domains.values()))"),
             ("if formula in self._metastable_domains:\n        return self._metastable_domains[formula]", "if formula in self.domains:\n        return self.domains[formula]")))
    ctx.spec("metastable", S, "_get_metastable_domain", META_DOM, what=effects(kinds=("mut",)), construct=S + "._get_metastable_domain:writes",
             why="calculating a metastable domain only changes the cache")
    ctx.spec("metastable", S, "_get_metastable_domain", META_DOM, what=effects("get_stabilized_entry", "ChemicalPotentialDiagram"),
             construct=S + "._get_metastable_domain:stabilised")
    ctx.spec("metastable", S, "metastable_domains", """
def f(self):
    return {e.composition.reduced_formula: self._get_metastable_domain(e.composition.reduced_formula)
            for e in self._min_entries if e.composition.reduced_formula not in self.domains}
""", opaque=("_get_metastable_domain",))
    ctx.spec("distance", S, "shortest_domain_distance", """
def f(self, f1, f2, offset=0.0):
    a = self.domains[f1] if f1 in self.domains else self._get_metastable_domain(f1)
    b = self.domains[f2] if f2 in self.domains else self._get_metastable_domain(f2)
    return min(KDTree(a).query(b)[0]) + offset
""", opaque=("_get_metastable_domain",))
    ctx.spec("distance", S, "_get_distance_between_parallel_hyperplanes", """
def f(a, delta_b):
    return np.abs(delta_b) / np.linalg.norm(a)
""", bad=[f"def f(a, delta_b):\n    return {x}" for x in ("np.abs(delta_b) / np.abs(a).sum()", "np.abs(delta_b) / np.sum(np.abs(a))", "np.abs(delta_b) / np.sum(a)",
          "np.abs(delta_b) / np.max(np.abs(a))", "np.abs(delta_b) / np.linalg.norm(a, ord=1)", "np.abs(delta_b) / np.linalg.norm(a, 1)", "np.abs(delta_b) / np.linalg.norm(a) ** 2", "np.abs(delta_b) / len(a)",
          "np.abs(delta_b) / np.dot(a, a)", "np.abs(delta_b) / np.linalg.norm(a[:-1])")])
    ctx.spec("distance", S, "get_offset", """
def f(self, entry):
    if entry in self._min_entries and entry.composition.reduced_formula in self.domains:
        return 0.0
    h = self._entry_set.get_e_above_hull(entry)
    return np.abs(h) / np.linalg.norm(self._get_hyperplane(entry)[:-1])
""")
    from .c22 import diagrams

    diagrams(ctx, "expand")
