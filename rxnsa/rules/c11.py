"""Duplicate filtering of reaction sets."""

META = {
    "title": "Filtering duplicates removes only multiples and keeps the ensured reactions",
    "statement": (
        "Filtering duplicates compares only reactions over the same set of entries, with coefficients brought into the same "
        "entry order, and treats two of them as duplicates only when one is a positive multiple of the other; from every "
        "group it keeps the one with the smallest coefficients, or the ensured reactions when the group has any. Every "
        "reaction that has no duplicate is kept, whatever its size and whether or not the work is distributed, and an "
        "ensured reaction that is not in the set is an error."
    ),
    "over": ["inputs", "schedules"],
    "quant": "every reaction set, every list of ensured reactions, parallel or serial, any number of CPUs",
    "why": "tests filter one fixed set and count the result; wrong groups, lost singletons or dropped ensured reactions need particular mixes",
    "files": ["src/rxn_network/reactions/reaction_set.py"],
    "mech": [("grouping", "ReactionSet.filter_duplicates"), ("choice inside a group", "_get_idxs_to_keep"),
             ("per-chunk work", "_process_duplicates, _process_duplicates_ray")],
}
FLOOR = 3
M = "reactions.reaction_set"


def rules(ctx):
    from ..check import vary

    ctx.spec("choice", M, "_get_idxs_to_keep", """
def f(rows, ensure_idxs=None):
    order = np.argsort(np.abs(rows).sum(axis=1))
    rs = rows[order]
    if ensure_idxs is not None:
        ensure_idxs = set(ensure_idxs)
    to_keep, to_remove = [], []
    for idx, row in zip(order, rs):
        if idx in to_remove:
            continue
        multiples = rs / row
        dup = np.argwhere(np.apply_along_axis(lambda r: np.isclose(abs(r[0]), r), axis=1, arr=multiples).all(axis=1)).flatten()
        group = order[dup]
        if ensure_idxs:
            gs = set(group)
            overlap = ensure_idxs & gs
            if overlap:
                if not overlap.issubset(to_keep):
                    difference = gs - ensure_idxs
                    to_keep.extend(list(overlap))
                    to_remove.extend(list(difference))
            else:
                to_keep.append(group[0])
                to_remove.extend(group[1:])
        else:
            to_keep.append(group[0])
            to_remove.extend(group[1:])
    return sorted(to_keep)
""")
    proc = """
    keep = []
    for group in groups:
        if group is None:
            continue
        rel = []
        for idx in ensure_idxs:
            if idx in group:
                rel.append(np.argwhere(group == idx).flatten()[0])
        keep.extend(group[_get_idxs_to_keep(coeffs[group], rel)])
"""
    ctx.spec("chunk", M, "_process_duplicates", f"def f(groups, coeffs, ensure_idxs):{proc}    return keep\n")
    ctx.spec("chunk", M, "_process_duplicates_ray", f"def f(size, groups, coeffs, ensure_idxs):{proc}    return size, keep\n")
    co = "        co = np.take_along_axis(self.coeffs[size], cs, axis=1)\n"
    ctx.spec("filter", "ReactionSet", "filter_duplicates", FILTER, bad=vary(
        FILTER, (co, "        co = self.coeffs[size]\n"), (co, "        co = np.sort(self.coeffs[size], axis=1)\n"), (co, "        co = np.take_along_axis(self.coeffs[size], np.argsort(self.coeffs[size], axis=1), axis=1)\n"),
        (co, "        co = np.abs(np.take_along_axis(self.coeffs[size], cs, axis=1))\n"), ("                single.append(i[0])\n", "                continue\n"),
        ("        keep[size] = single\n", ""), ("            if len(i) == 1:", "            if len(i) <= 2:"), ("(ii == ri).all() and (cc == rc).all()", "(ii == ri).all()"),
        ("(ii == ri).all() and (cc == rc).all()", "(ii == ri).any() and (cc == rc).any()"), ("        if n == 0:\n            continue\n", "        if n == 0:\n            break\n"),
        ("            keep[size].extend(data)\n", "            keep[size] = data\n")))


FILTER = """
def f(self, ensure_rxns=None, parallelize=True):
    if parallelize:
        if not ray.is_initialized():
            initialize_ray()
        num_cpus = max(int(ray.cluster_resources()["CPU"]) - 1, 1)
        chunk_refs = []
    ens = {size: [] for size in self.indices}
    keep = {size: [] for size in self.indices}
    for rxn in ensure_rxns or []:
        ri = np.array([self.entries.index(e) for e in rxn.entries])
        rc = rxn.coefficients
        size = len(ri)
        quick = np.argwhere(ri[0] == self.indices[size][:, 0]).flatten()
        for i, ii, cc in zip(quick, self.indices[size][quick], self.coeffs[size][quick]):
            if (ii == ri).all() and (cc == rc).all():
                ens[size].append(i)
                break
        else:
            raise ValueError("x")
    for size in sorted(self.indices.keys()):
        ek = ens[size]
        cs = np.argsort(self.indices[size], axis=1)
        ind = np.take_along_axis(self.indices[size], cs, axis=1)
        co = np.take_along_axis(self.coeffs[size], cs, axis=1)
        _, inv = np.unique(ind, axis=0, return_inverse=True)
        single = []
        groups = []
        for i in np.split(np.argsort(inv), np.cumsum(np.unique(inv, return_counts=True)[1])[:-1]):
            if len(i) == 1:
                single.append(i[0])
            else:
                groups.append(i)
        n = len(groups)
        keep[size] = single
        if n == 0:
            continue
        if parallelize:
            chunk = (n // num_cpus) + 1
            co = ray.put(co)
            for ch in grouper(groups, chunk, fillvalue=None):
                chunk_refs.append(_process_duplicates_ray.remote(size, ch, co, ek))
        else:
            keep[size].extend(_process_duplicates(groups, co, ek))
    if parallelize:
        for result in to_iterator(chunk_refs):
            size, data = result
            keep[size].extend(data)
    return self._get_rxn_set_by_indices(keep)
"""
