"""Precursors, target and pathfinding on a reaction network."""

META = {
    "title": "Precursors, target and path search reflect only the latest request",
    "statement": (
        "After setting precursors or a target, any number of times and in any order, the network contains exactly one "
        "precursor (target) node for the latest request, linked to every reactant set the precursors can supply (from every "
        "product set holding the target), with loop-back edges exactly where products plus precursors supply a reactant set "
        "not already supplied by the precursors, and none left from earlier requests; unknown phases and an unbuilt network "
        "raise an error and change nothing. Path search works on a copy of the graph, puts back every edge it hides, reports "
        "for each step the cheapest reaction and its cost, and returns loopless paths without duplicates for each target in "
        "turn; a saved network is restored with the same precursors, target and graph without altering the saved data."
    ),
    "over": ["inputs", "histories"],
    "quant": "every network and every sequence of builds, precursor and target settings, searches and save/restore steps",
    "why": "no test sets precursors twice, rebuilds, or searches a network with parallel reactions",
    "files": ["src/rxn_network/network/network.py", "src/rxn_network/network/base.py"],
    "mech": [("lifecycle", "ReactionNetwork.set_precursors, set_target, build"), ("search", "yens_ksp, find_pathways, _k_shortest_paths, _path_from_graph"),
             ("storage", "Network.as_dict, from_dict")],
}
FLOOR = 12

PRE = """
def f(self, precursors):
    g = self._g
    if not g:
        raise ValueError("x")
    precursors = {p if isinstance(p, (Entry | ExperimentalReferenceEntry)) else self.entries.get_min_entry_by_formula(p) for p in precursors}
    if precursors == self.precursors:
        return
    if not all(p in self.entries for p in precursors):
        raise ValueError("x")
    entry = NetworkEntry(precursors, NetworkEntryType.Precursors)
    if self.precursors:
        for node in g.node_indices():
            if g.get_node_data(node).description.value == NetworkEntryType.Precursors.value:
                g.remove_node(node)
                break
        else:
            raise ValueError("x")
        for a, b, e in g.weighted_edge_list():
            if isinstance(e, str) and e == "loopback_edge" and g.get_node_data(a).entries != g.get_node_data(b).entries:
                g.remove_edge(a, b)
    pn = g.add_node(entry)
    edges = []
    for node in g.node_indices():
        x = g.get_node_data(node)
        t = x.description.value
        if t == NetworkEntryType.Reactants.value:
            if x.entries.issubset(precursors):
                edges.append((pn, node, "precursor_edge"))
        elif t == NetworkEntryType.Products.value:
            for node2 in g.node_indices():
                y = g.get_node_data(node2)
                if y.description.value == NetworkEntryType.Reactants.value:
                    if precursors.issuperset(y.entries) or x.entries == y.entries:
                        continue
                    if precursors.union(x.entries).issuperset(y.entries):
                        edges.append((node, node2, "loopback_edge"))
    g.add_edges_from(edges)
    self._precursors = precursors
"""

TAR = """
def f(self, target):
    g = self._g
    if not g:
        raise ValueError("x")
    target = target if isinstance(target, (Entry | ExperimentalReferenceEntry)) else self.entries.get_min_entry_by_formula(target)
    if target == self.target:
        return
    if target not in self.entries:
        raise ValueError("x")
    if self.target:
        for node in g.node_indices():
            if g.get_node_data(node).description.value == NetworkEntryType.Target.value:
                g.remove_node(node)
                break
        else:
            raise ValueError("x")
    tn = g.add_node(NetworkEntry([target], NetworkEntryType.Target))
    edges = []
    for node in g.node_indices():
        x = g.get_node_data(node)
        if x.description.value != NetworkEntryType.Products.value:
            continue
        if target in x.entries:
            edges.append((node, tn, "target_edge"))
    g.add_edges_from(edges)
    self._target = target
"""

YEN = """
def f(g, cf, num_k, precursors_node, target_node):
    def path_cost(nodes):
        cost = 0
        for j in range(len(nodes) - 1):
            cost += get_edge_weight(get_cheapest_edge(g, nodes[j], nodes[j + 1], cf), cf)
        return cost
    def w(e):
        return get_edge_weight(e, cf)
    g = g.copy()
    sp = rx.dijkstra_shortest_paths(g, precursors_node, target_node, weight_fn=w)
    if not sp:
        return []
    first = list(sp[target_node])
    a = [first]
    costs = [path_cost(first)]
    b = PriorityQueue()
    for k in range(1, num_k):
        try:
            prev = a[k - 1]
        except IndexError:
            break
        for i in range(len(prev) - 1):
            spur = prev[i]
            root = prev[: i + 1]
            hide = {(path[i], path[i + 1]) for path in a if len(path) - 1 > i and root == path[: i + 1]}
            for node in root[:-1]:
                hide.update((s, node) for s in g.predecessor_indices(node))
            removed = []
            for s, t in hide:
                for e in g.get_all_edge_data(s, t):
                    g.remove_edge(s, t)
                    removed.append((s, t, e))
            sp2 = rx.dijkstra_shortest_paths(g, spur, target_node, weight_fn=w)
            g.add_edges_from(removed)
            if sp2:
                total = list(root[:-1]) + list(sp2[target_node])
                b.put((path_cost(total), total))
        while True:
            try:
                c_, p_ = b.get(block=False)
            except Empty:
                break
            if p_ not in a:
                a.append(p_)
                costs.append(c_)
                break
    return a
"""

YEN_PREFIX = YEN.replace("prev[: i + 1]", "prev[:i]").replace("""            hide = {(path[i], path[i + 1]) for path in a if len(path) - 1 > i and root == path[: i + 1]}
            for node in root[:-1]:
                hide.update((s, node) for s in g.predecessor_indices(node))
            removed = []
            for s, t in hide:
                for e in g.get_all_edge_data(s, t):
                    g.remove_edge(s, t)
                    removed.append((s, t, e))
""", """            removed = []
            for path in a:
                if len(path) - 1 > i and root == path[:i]:
                    try:
                        e = g.get_edge_data(path[i], path[i + 1])
                    except rx.NoEdgeBetweenNodes:
                        continue
                    g.remove_edge(path[i], path[i + 1])
                    removed.append((path[i], path[i + 1], e))
""").replace("list(root[:-1])", "list(root)")


def rules(ctx):
    from ..check import effects, vary

    R, N = "ReactionNetwork", "network.network"
    for nm, src, attr in (("set_precursors", PRE, "_precursors"), ("set_target", TAR, "_target")):
        ctx.spec("lifecycle", R, nm, src, what=f"store:{attr}", construct=f"{R}.{nm}:{attr}")
        ctx.spec("lifecycle", R, nm, src, what="raises", construct=f"{R}.{nm}:raises")
        for ev in ("add_node", "add_edges_from", "remove_node") + (("remove_edge",) if nm == "set_precursors" else ()):
            ctx.spec("lifecycle", R, nm, src, what=effects(ev), construct=f"{R}.{nm}:{ev}")
    ctx.spec("search", N, "yens_ksp", YEN)
    bad = [YEN.replace("get_cheapest_edge(g, nodes[j], nodes[j + 1], cf)", "g.get_edge_data(nodes[j], nodes[j + 1])"), YEN_PREFIX]
    for ev in ("remove_edge", "add_edges_from", "dijkstra_shortest_paths", "put", "copy"):
        ctx.spec("search", N, "yens_ksp", YEN, what=effects(ev), construct=f"yens_ksp:{ev}", bad=bad)
    for a in ("precursors", "target"):
        ctx.spec("lifecycle", R, "build", f"def f(self):\n    self._{a} = None", what=f"store:_{a}", construct=f"{R}.build:{a}")
    find = """
def f(self, targets, k=15):
    if not self.precursors:
        raise AttributeError("x")
    paths = []
    for t in targets:
        self.set_target(t)
        paths.extend(self._k_shortest_paths(k=k))
    return PathwaySet.from_paths(paths)
"""
    ctx.spec("search", R, "find_pathways", find)
    ctx.spec("search", R, "find_pathways", find, what=effects("set_target"), construct=f"{R}.find_pathways:set_target")
    ctx.spec("search", R, "_k_shortest_paths", """
def f(self, k):
    g = self._g
    if not g:
        raise ValueError("x")
    paths = []
    pn = g.find_node_by_weight(NetworkEntry(self.precursors, NetworkEntryType.Precursors))
    tn = g.find_node_by_weight(NetworkEntry([self.target], NetworkEntryType.Target))
    for p in yens_ksp(g, self.cost_function, k, pn, tn):
        paths.append(self._path_from_graph(g, p, self.cost_function))
    return paths
""")
    ctx.spec("search", R, "_path_from_graph", """
def f(g, path, cf):
    rxns, costs = [], []
    for step, node in enumerate(path):
        if g.get_node_data(node).description.value == NetworkEntryType.Products.value:
            e = get_cheapest_edge(g, path[step - 1], node, cf)
            rxns.append(e)
            costs.append(get_edge_weight(e, cf))
    return BasicPathway(reactions=rxns, costs=costs)
""", bad=["""
def f(g, path, cf):
    rxns, costs = [], []
    for step, node in enumerate(path):
        if g.get_node_data(node).description.value == NetworkEntryType.Products.value:
            e = g.get_edge_data(path[step - 1], node)
            rxns.append(e)
            costs.append(get_edge_weight(e, cf))
    return BasicPathway(reactions=rxns, costs=costs)
"""])
    ND = """
def f(self):
    d = super().as_dict()
    d["precursors"] = list(self.precursors) if self.precursors else None
    d["target"] = self.target
    d["graph"] = self.graph.as_dict() if self.graph is not None else None
    return d
"""
    ctx.spec("storage", R, "as_dict", ND, bad=vary(ND, ('= self.target\n', '= str(self.target)\n'), ('= self.target\n', '= str(self.target) if self.target else None\n'),
             ('= self.target\n', '= self.target.as_dict() if self.target else None\n'), ('= self.target\n', '= repr(self.target)\n'),
             ("if self.graph is not None", "if self.precursors"), ("if self.graph is not None", "if self.target"),
             ("if self.graph is not None", "if self.precursors is not None"), ("list(self.precursors)", "str(self.precursors)"),
             ("list(self.precursors)", "[str(p) for p in self.precursors]"), ("list(self.precursors)", "sorted(self.precursors)[:1]")))
    fd = """
def f(cls, d):
    d = dict(d)
    p = MontyDecoder().process_decoded(d.pop("precursors", None))
    t = MontyDecoder().process_decoded(d.pop("target", None))
    g = d.pop("graph", None)
    n = super().from_dict(d)
    n._precursors = set(p) if p else None
    n._target = t
    n._g = MontyDecoder().process_decoded(g)
    return n
"""
    wrong = vary(fd, ("_target = t\n", "_target = str(t)\n"), ("_target = t\n", "_target = None if t is None else str(t)\n"), ("_target = t\n", "_target = str(t) if t else None\n"),
                 ("set(p) if p else None", "p if p else None"), ("set(p) if p else None", "p"), ("set(p) if p else None", "list(p) if p else None"), ("set(p) if p else None", "tuple(p) if p else None"),
                 ("n._g = MontyDecoder().process_decoded(g)", "n._g = g"), ("set(p) if p else None", "{str(x) for x in p} if p else None"))
    ctx.spec("storage", R, "from_dict", fd, bad=wrong)
    for a in ("_precursors", "_target", "_g"):
        ctx.spec("storage", R, "from_dict", fd, what=effects(a, kinds=("setattr",)), construct=f"{R}.from_dict:{a}", bad=wrong)
    for a in ("precursors", "target"):
        ctx.spec("accessor", R, a, f"def f(self):\n    return self._{a}")
    ctx.spec("accessor", R, "graph", "def f(self):\n    return self._g")
    ctx.spec("accessor", R, "chemsys", "def f(self):\n    return '-'.join(sorted(self.entries.chemsys))")
