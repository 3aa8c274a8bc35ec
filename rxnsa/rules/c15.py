"""Pathways and sets of pathways."""

META = {
    "title": "Pathways report net phases, costs and identity from their own reactions",
    "statement": (
        "A pathway's reactants, products and intermediates are the phases its reactions only consume, only produce, or both; "
        "its energies and total cost add up over its reactions, and a balanced pathway's average cost is weighted by the "
        "reaction multiplicities. Two pathways are equal only if they have the same number of equal reactions in order (and, "
        "when balanced, the same multiplicities and costs), and equal pathways have equal hashes. A set of pathways gives back "
        "every pathway in order with its own reactions, multiplicities, costs and balanced flag, and reactions are "
        "interdependent only when some group of them, none startable from the precursors, feeds every member exclusively "
        "from within the group."
    ),
    "over": ["inputs"],
    "quant": "every list of pathways, shared reactions, multiplicities and costs",
    "why": "pathway tests only exercise plotting; no test compares, stores or balances pathways",
    "files": ["src/rxn_network/pathways/base.py", "src/rxn_network/pathways/basic.py", "src/rxn_network/pathways/balanced.py",
              "src/rxn_network/pathways/pathway_set.py"],
    "mech": [("net phases and sums", "Pathway, BasicPathway properties"), ("balanced pathways", "BalancedPathway"),
             ("storage", "PathwaySet.from_paths, PathwaySet.paths")],
}
FLOOR = 12


def rules(ctx):
    from ..check import vary

    for P in ("BasicPathway", "BalancedPathway"):
        ctx.spec("net", P, "entries", "def f(self):\n    return {e for r in self._reactions for e in r.entries}")
        ctx.spec("net", P, "all_reactants", "def f(self):\n    return {e for r in self._reactions for e in r.reactants}")
        ctx.spec("net", P, "all_products", "def f(self):\n    return {e for r in self._reactions for e in r.products}")
        ctx.spec("net", P, "compositions", "def f(self):\n    return list(self.all_reactants | self.all_products)")
        ctx.spec("net", P, "reactants", "def f(self):\n    return self.all_reactants - self.all_products")
        ctx.spec("net", P, "products", "def f(self):\n    return self.all_products - self.all_reactants")
        ctx.spec("net", P, "intermediates", "def f(self):\n    return self.all_products & self.all_reactants")
        ctx.spec("sum", P, "energy", "def f(self):\n    return sum(r.energy for r in self._reactions)",
                 bad=["def f(self):\n    return sum({r.energy for r in self._reactions})", "def f(self):\n    return sum(r.energy for r in set(self._reactions))"])
        ctx.spec("sum", P, "energy_per_atom", "def f(self):\n    return sum(r.energy_per_atom for r in self._reactions)",
                 bad=["def f(self):\n    return sum({r.energy_per_atom for r in self._reactions})", "def f(self):\n    return sum(r.energy_per_atom for r in set(self._reactions))"])
        ctx.spec("sum", P, "total_cost", "def f(self):\n    return sum(self.costs)",
                 bad=["def f(self):\n    return " + x for x in ("sum(set(self.costs))", "sum(self.costs[:-1])", "sum(self.costs[1:])", "np.prod(self.costs)",
                      "np.mean(self.costs)", "max(self.costs)", "sum(np.unique(self.costs))", "sum(abs(c) for c in self.costs)")])
        ctx.spec("net", P, "reactions", "def f(self):\n    return self._reactions")
        ctx.spec("net", P, "is_experimental", "def f(self):\n    return all(e.is_experimental for e in self.entries)")
    for a in ("reactions", "costs"):
        v = {"reactions": "reactions", "costs": "costs or []"}[a]
        ctx.spec("store", "BasicPathway", "__init__", f"def f(self, reactions, costs=None):\n    self.{a} = {v}", what=f"store:{a}",
                 construct=f"BasicPathway.{a}")
    for a, v in (("reactions", "reactions"), ("costs", "costs or []"), ("coefficients", "coefficients"), ("balanced", "balanced")):
        ctx.spec("store", "BalancedPathway", "__init__", f"def f(self, reactions, coefficients, costs, balanced=False):\n    self.{a} = {v}",
                 what=f"store:{a}", construct=f"BalancedPathway.{a}")
    ctx.spec("identity", "BasicPathway", "__eq__", """
def f(self, other):
    if isinstance(other, self.__class__):
        return len(other.reactions) == len(self.reactions) and all(o == r for o, r in zip(other.reactions, self.reactions))
    return False
""")
    ctx.spec("identity", "BasicPathway", "__hash__", "def f(self):\n    return hash(tuple(self.reactions))")
    ctx.spec("identity", "BalancedPathway", "__eq__", """
def f(self, other):
    if super().__eq__(other):
        return np.allclose(self.coefficients, other.coefficients) and np.allclose(self.costs, other.costs)
    return False
""")
    ctx.spec("identity", "BalancedPathway", "__hash__", "def f(self):\n    return hash(tuple(self.reactions))")
    ctx.spec("sum", "BalancedPathway", "average_cost", "def f(self):\n    return np.dot(self.coefficients, self.costs) / sum(self.coefficients)")
    ctx.spec("matrix", "BalancedPathway", "get_comp_matrix", """
def f(self):
    return np.array([[r.get_coeff(c) if c in r.compositions else 0 for c in self.compositions] for r in self.reactions])
""")
    ctx.spec("matrix", "BalancedPathway", "get_coeff_vector_for_rxn", """
def f(self, rxn):
    return np.array([rxn.get_coeff(c) if c in rxn.compositions else 0 for c in self.compositions])
""")
    ctx.spec("interdependent", "BalancedPathway", "contains_interdependent_rxns", """
def f(self, precursors):
    pre = set(precursors)
    inter = False
    rxns = set(self.reactions)
    n = len(rxns)
    if n == 1:
        return False
    for combo in limited_powerset(rxns, n):
        size = len(combo)
        if any(set(r.reactants).issubset(pre) for r in combo) or size == 1:
            continue
        other = {c for r in (rxns - set(combo)) for c in r.compositions}
        ur, up = [], []
        for r in combo:
            ur.append(set(r.reactants) - pre)
            up.append(set(r.products) - pre)
        overlap = [False] * size
        for i in range(size):
            for j in range(size):
                if i == j:
                    continue
                if (ur[i] & up[j]) - other:
                    overlap[i] = True
        if all(overlap):
            inter = True
    return inter
""")
    S = "PathwaySet"
    for a in ("reaction_set", "indices", "coefficients", "costs", "balanced"):
        ctx.spec("set", S, "__init__", f"def f(self, reaction_set, indices, coefficients, costs, balanced=None):\n    self.{a} = {a}",
                 what=f"store:{a}", construct=f"{S}.{a}")
    GP = """
def f(self):
    paths = []
    rxns = list(self.reaction_set.get_rxns())
    for ind, co, cost, bal in zip(self.indices, self.coefficients, self.costs, self.balanced or [False] * len(self.indices)):
        rs = [rxns[i] for i in ind]
        if co is not None:
            p = BalancedPathway(reactions=rs, coefficients=co, costs=cost, balanced=bal)
        else:
            p = BasicPathway(reactions=rs, costs=cost)
        paths.append(p)
    return paths
"""
    ctx.spec("set", S, "_get_paths", GP, bad=vary(GP, *[("for i in ind]", f"for i in {x}]") for x in ("sorted(ind)", "set(ind)", "sorted(set(ind))", "ind[::-1]", "range(len(ind))", "reversed(ind)")],
             ("if co is not None:", "if co:"), ("if co is not None:", "if bal:"), ("if co is not None:", "if co is not None and bal:"), ("if co is not None:", "if co is None:"),
             ("if co is not None:", "if cost:"), ("balanced=bal", "balanced=True"), ("balanced=bal", "balanced=bool(co)"), (", balanced=bal)", ")")))
    FP = """
def f(cls, paths):
    ind, co, cost = [], [], []
    rs = cls._get_reaction_set(paths)
    rxns = list(rs.get_rxns())
    for p in paths:
        ind.append([rxns.index(r) for r in p.reactions])
        co.append(getattr(p, "coefficients", None))
        cost.append(p.costs)
    return cls(reaction_set=rs, indices=ind, coefficients=co, costs=cost, balanced=[getattr(p, "balanced", False) for p in paths])
"""
    ctx.spec("set", S, "from_paths", FP, bad=vary(FP, ("append(p.costs)", "append(sorted(p.costs))"), ("append(p.costs)", "append(p.total_cost)"), ("append(p.costs)", "append(p.costs[::-1])"),
             ("for r in p.reactions])\n        co", "for r in sorted(p.reactions)])\n        co"), ("append([rxns.index(r) for r in p.reactions])", "append(sorted([rxns.index(r) for r in p.reactions]))"),
             ("append([rxns.index(r) for r in p.reactions])", "append(sorted(rxns.index(r) for r in p.reactions))"), ("append([rxns.index(r) for r in p.reactions])", "append([rxns.index(r) for r in set(p.reactions)])"),
             ('getattr(p, "balanced", False) for', "True for"), ('getattr(p, "balanced", False) for', "hasattr(p, 'balanced') for")))
    ctx.spec("set", S, "_get_reaction_set", "def f(paths):\n    return ReactionSet.from_rxns([r for p in paths for r in p.reactions])")
    ctx.spec("set", S, "paths", "def f(self):\n    return self._get_paths()")
    ctx.spec("set", S, "__iter__", "def f(self):\n    return iter(self.paths)")
    ctx.spec("set", S, "__len__", "def f(self):\n    return len(self.indices)")
