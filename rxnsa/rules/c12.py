"""Construction of the reaction network graph."""

META = {
    "title": "The network has one edge per reaction between exactly its phase sets",
    "statement": (
        "Building a network gives one node for each distinct set of reactants and each distinct set of products, one edge "
        "per reaction from its reactant node to its product node, and a free edge back from a product node to every reactant "
        "node holding exactly the same phases, and nothing else; a reaction edge costs what the cost function says and every "
        "bookkeeping edge costs nothing. Two nodes are the same exactly when they have the same role and the same phases, and "
        "they report the elements they contain and their number. Saving and restoring the graph keeps its nodes, edges and "
        "which nodes each edge joins."
    ),
    "over": ["inputs", "histories"],
    "quant": "every reaction set and cost function, including reactions sharing phases and several reactions between the same phases",
    "why": "the only network test loads one stored network and checks that a graph exists",
    "files": ["src/rxn_network/network/network.py", "src/rxn_network/network/entry.py", "src/rxn_network/network/base.py"],
    "mech": [("nodes and edges", "get_rxn_nodes_and_edges, get_loopback_edges, ReactionNetwork.build"),
             ("edge weight", "get_edge_weight"), ("node identity", "NetworkEntry.__eq__, __hash__"),
             ("graph storage", "Graph.as_dict, Graph.from_dict")],
}
FLOOR = 10


def rules(ctx):
    from ..check import effects, vary

    N = "network.network"
    ctx.spec("edges", N, "get_rxn_nodes_and_edges", """
def f(rxns):
    nodes, edges = [], []
    for rxn in tqdm(rxns):
        r = NetworkEntry(rxn.reactant_entries, NetworkEntryType.Reactants)
        p = NetworkEntry(rxn.product_entries, NetworkEntryType.Products)
        if r not in nodes:
            nodes.append(r)
            i = len(nodes) - 1
        else:
            i = nodes.index(r)
        if p not in nodes:
            nodes.append(p)
            j = len(nodes) - 1
        else:
            j = nodes.index(p)
        edges.append((i, j, rxn))
    return nodes, edges
""")
    ctx.spec("loopback", N, "get_loopback_edges", """
def f(nodes):
    edges = []
    for i, p in enumerate(nodes):
        if p.description.value != NetworkEntryType.Products.value:
            continue
        for j, r in enumerate(nodes):
            if r.description.value != NetworkEntryType.Reactants.value:
                continue
            if p.entries == r.entries:
                edges.append((i, j, "loopback_edge"))
    return edges
""")
    ctx.spec("weight", N, "get_edge_weight", """
def f(edge_obj, cf):
    if isinstance(edge_obj, str) and edge_obj in ["loopback_edge", "precursor_edge", "target_edge"]:
        return 0.0
    if isinstance(edge_obj, (ComputedReaction | OpenComputedReaction)):
        return cf.evaluate(edge_obj)
    raise ValueError("x")
""")
    ctx.spec("weight", N, "get_cheapest_edge", """
def f(g, source, sink, cf):
    return min(g.get_all_edge_data(source, sink), key=lambda e: get_edge_weight(e, cf))
""")
    build = """
def f(self):
    g = Graph()
    nodes, edges = get_rxn_nodes_and_edges(self.rxns)
    edges.extend(get_loopback_edges(nodes))
    g.add_nodes_from(nodes)
    g.add_edges_from(edges)
    self._g = g
    self._precursors = None
    self._target = None
"""
    R = "ReactionNetwork"
    for a in ("graph", "precursors", "target"):
        ctx.spec("build", R, "build", build, what=f"store:{a}", construct=f"{R}.build:{a}")
    ctx.spec("build", R, "build", build, what=effects("add_nodes_from", recv=False), construct=f"{R}.build:nodes")
    ctx.spec("build", R, "build", build, what=effects("add_edges_from", recv=False), construct=f"{R}.build:edges")
    init = """
def f(self, rxns, cost_function=None):
    if cost_function is None:
        cost_function = Softplus()
    self.rxns = rxns
    self.cost_function = cost_function
    self.entries = GibbsEntrySet(rxns.entries)
    self.entries.build_indices()
    self._precursors = None
    self._target = None
    self._g = None
"""
    for a in ("rxns", "cost_function", "entries", "precursors", "target", "graph"):
        ctx.spec("init", R, "__init__", init, what=f"store:{a}", construct=f"{R}.{a}")
    ctx.spec("init", R, "__init__", init, what=effects("build_indices", recv=False), construct=f"{R}.__init__:indices")
    E = "NetworkEntry"
    ent = """
def f(self, entries, description):
    self._entries = set(entries)
    self._elements = sorted({elem for e in entries for elem in e.composition.elements})
    self._chemsys = "-".join([str(e) for e in self._elements])
    self._dim = len(self._elements)
    self._description = description
"""
    for a in ("entries", "elements", "chemsys", "dim", "description"):
        bad = [ent.replace("len(self._elements)", "len(self._chemsys)"), ent.replace("len(self._elements)", "len(self._entries)")] if a == "dim" else []
        ctx.spec("node", E, "__init__", ent, what=f"store:_{a}", construct=f"{E}._{a}", bad=bad)
        ctx.spec("node", E, a, f"def f(self):\n    return self._{a}")
    ctx.spec("identity", E, "__eq__", """
def f(self, other):
    if isinstance(other, self.__class__) and self.description == other.description and self.chemsys == other.chemsys:
        return self.entries == other.entries
    return False
""")
    ctx.spec("identity", E, "__hash__", """
def f(self):
    return hash((self.description, frozenset(self.entries)))
""", bad=["def f(self):\n    return hash(" + x + ")" for x in ("(self.description, tuple(self.entries))", "(self.description, *self.entries)",
          "(self.description, str(self.entries))", "(self.description, repr(self.entries))", "(self.description, tuple(str(e) for e in self.entries))",
          "id(self)", "(self.description, id(self.entries))", "repr(self)", "str(self)")])
    ctx.spec("storage", E, "as_dict", """
def f(self):
    return {"@module": self.__class__.__module__, "@class": self.__class__.__name__, "entries": list(self.entries),
        "description": self.description.value}
""")
    ctx.spec("storage", E, "from_dict", """
def f(cls, d):
    return cls(MontyDecoder().process_decoded(d["entries"]), NetworkEntryType(d["description"]))
""")
    GD = """
def f(self):
    d = {"@module": self.__class__.__module__, "@class": self.__class__.__name__}
    d["nodes"] = [n.as_dict() for n in self.nodes()]
    d["node_indices"] = list(self.node_indices())
    d["edges"] = [(*e, o.as_dict() if hasattr(o, "as_dict") else o) for e, o in zip(self.edge_list(), self.edges())]
    return d
"""
    ctx.spec("storage", "Graph", "as_dict", GD, bad=vary(GD, *[("list(self.node_indices())", x) for x in
             ("list(range(self.num_nodes()))", "list(range(len(self.nodes())))", "[i for i, _ in enumerate(self.nodes())]", "list(range(1, self.num_nodes() + 1))")],
             ("o.as_dict() if hasattr(o, \"as_dict\") else o", "o"), ("o.as_dict() if hasattr(o, \"as_dict\") else o", "str(o)"),
             ("self.edge_list(), self.edges()", "sorted(self.edge_list()), self.edges()"), ("self.edge_list(), self.edges()", "set(self.edge_list()), self.edges()")))
    g = """
def f(cls, d):
    nodes = MontyDecoder().process_decoded(d["nodes"])
    idx = MontyDecoder().process_decoded(d["node_indices"])
    edges = [(e[0], e[1], MontyDecoder().process_decoded(e[2])) for e in d["edges"]]
    nodes = dict(zip(nodes, idx))
    graph = cls()
    new = graph.add_nodes_from(list(nodes.keys()))
    m = {nodes[n]: i for i, n in zip(new, nodes.keys())}
    graph.add_edges_from([(m[e[0]], m[e[1]], e[2]) for e in edges])
    return graph
"""
    ctx.spec("storage", "Graph", "from_dict", g)
    ctx.spec("storage", "Graph", "from_dict", g, what=effects("add_nodes_from", recv=False), construct="Graph.from_dict:nodes")
    ctx.spec("storage", "Graph", "from_dict", g, what=effects("add_edges_from", recv=False), construct="Graph.from_dict:edges")
