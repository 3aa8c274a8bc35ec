"""Enumerators: chunks and parallel runs."""
from ..check import effects, folds, vary
from .c07 import candidates

META = {
    "title": "Every candidate is examined exactly once, however the work is split",
    "statement": (
        "Enumerating puts every candidate pair of every chemical system into exactly one job together with that system's own entries "
        "and phase diagrams, runs every job once with the enumerator's own settings and collects every job's reactions, whatever the "
        "chunk size, limit on jobs, number of CPUs or order in which jobs finish. The number of jobs never exceeds the limit, and the "
        "result is a reaction set over the enumerator's entries, without duplicates when requested. Splitting any sequence in groups "
        "keeps every item in order, and waiting on jobs yields each job's result exactly once."
    ),
    "over": ["inputs", "schedules", "configurations"],
    "quant": "every entry set, chunk size, limit on jobs, number of CPUs and order of completion",
    "why": "the tests run one machine with the default chunk size, far above the number of candidates of their fixtures",
    "files": ["src/rxn_network/enumerators/basic.py", "src/rxn_network/utils/funcs.py", "src/rxn_network/utils/ray.py"],
    "mech": [("chunks and jobs", "BasicEnumerator.enumerate"), ("candidate counts", "_rxn_iter_length, _get_num_chunks"),
             ("splitting and waiting", "grouper, to_iterator")],
}
FLOOR = 12

ENUM = """
def f(self, entries):
    if not ray.is_initialized():
        initialize_ray()
    entries, precursors, targets, open_entries = self._get_initialized_entries(entries)
    cd = self._get_combos_dict(entries, precursors, targets, open_entries)
    oc = self._get_open_combos(open_entries)
    if not oc:
        oc = []
    precursors = ray.put(precursors)
    targets = ray.put(targets)
    rf = ray.put(self._react_function)
    open_entries = ray.put(open_entries)
    psf = ray.put(self._p_set_func)
    tsf = ray.put(self._t_set_func)
    ru = ray.put(self.remove_unbalanced)
    rc = ray.put(self.remove_changed)
    mc = ray.put(self.max_num_constraints)
    eref = ray.put(entries)
    ncpu = int(ray.cluster_resources()["CPU"])
    pds = {}
    if self._build_pd or self._build_grand_pd:
        size = int(len(cd) // ncpu) + 1
        refs = []
        for item in grouper(cd.items(), size):
            refs.append(_get_entries_and_pds.remote(item, eref, self.build_pd, self.build_grand_pd, getattr(self, "chempots", None)))
        for c in tqdm(to_iterator(refs), total=len(refs), disable=self.quiet, desc="x"):
            pds.update(c)
    cs = self.chunk_size
    total = sum(self._rxn_iter_length(c, oc) for c in cd.values())
    if total / cs > self.max_num_jobs:
        cs = int(total // self.max_num_jobs) + 1
    run, cur = [], []
    for item in tqdm(cd.items(), disable=self.quiet, desc="x", total=len(cd)):
        chemsys, combos = item
        it = list(self._get_rxn_iterable(combos, oc))
        fe, pd, gpd = None, None, None
        if self._build_pd or self._build_grand_pd:
            fe, pd, gpd = pds[chemsys]
        fe = ray.put(fe)
        pd = ray.put(pd)
        gpd = ray.put(gpd)
        n = sum(len(c[0]) for c in cur)
        cur.append(([], fe, pd, gpd))
        for r in it:
            if n == cs:
                run.append(cur)
                cur = [([r], fe, pd, gpd)]
                n = 1
            else:
                cur[-1][0].append(r)
                n += 1
        if n == cs:
            run.append(cur)
            cur = []
    if cur:
        run.append(cur)
    refs, out = [], []
    for chunk in run:
        refs.append(_react.remote(chunk, rf, open_entries, precursors, targets, psf, tsf, ru, rc, mc))
    for c in tqdm(to_iterator(refs), total=len(run), disable=self.quiet, desc="x"):
        out.extend(c)
    return ReactionSet.from_rxns(out, entries=entries, filter_duplicates=self.filter_duplicates)
"""


def rules(ctx):
    B, O, M, G = "BasicEnumerator", "BasicOpenEnumerator", "MinimizeGibbsEnumerator", "MinimizeGrandPotentialEnumerator"
    F = "rxn_network.utils.funcs"
    candidates(ctx)
    ctx.spec("split", F, "grouper", """
def f(iterable, n, fillvalue=None):
    return zip_longest(*([iter(iterable)] * n), fillvalue=fillvalue)
""", bad=["def f(iterable, n, fillvalue=None):\n    return zip(*([iter(iterable)] * n))",
          "def f(iterable, n, fillvalue=None):\n    return zip_longest(*([iter(iterable)] * n))",
          "def f(iterable, n, fillvalue=None):\n    return zip_longest(*([iter(iterable)] * (n - 1)), fillvalue=fillvalue)",
          "def f(iterable, n, fillvalue=None):\n    return zip_longest(*([iter(iterable)] * (n + 1)), fillvalue=fillvalue)"])
    WAIT = """
def f(obj_ids, get_obj_ids=False):
    while obj_ids:
        done, obj_ids = ray.wait(obj_ids)
        if get_obj_ids:
            yield done[0], ray.get(done[0])
        else:
            yield ray.get(done[0])
"""
    ctx.spec("wait", "rxn_network.utils.ray", "to_iterator", WAIT)
    ctx.spec("count", B, "_rxn_iter_length", "def f(combos, open_combos):\n    return comb(len(combos), 2)")
    ctx.spec("count", O, "_rxn_iter_length", """
def f(combos, open_combos):
    return len(combos) * sum(1 if not i & j else 0 for i in combos for j in open_combos)
""")
    for c in (M, G):
        ctx.spec("count", c, "_rxn_iter_length", "def f(combos, open_combos):\n    return len(combos)")
    ctx.spec("count", B, "_get_num_chunks", """
def f(cls, items, open_combos, chunk_size):
    n = 0
    for _, i in items:
        k = cls._rxn_iter_length(i, open_combos)
        n += k // chunk_size + bool(k % chunk_size)
    return n
""", opaque=("_rxn_iter_length",))
    H = ("_get_initialized_entries", "_get_combos_dict", "_get_open_combos", "_rxn_iter_length", "_get_rxn_iterable", "_react",
         "_get_entries_and_pds")
    ctx.refsig.update({"_get_initialized_entries": ["self", "entries"], "_get_open_combos": ["self", "open_entries"],
                       "_get_combos_dict": ["self", "entries", "precursor_entries", "target_entries", "open_entries"],
                       "_get_rxn_iterable": ["combos", "open_combos"],
                       "_react": ["chunk", "react_function", "open_entries", "precursors", "targets", "p_set_func", "t_set_func",
                                  "remove_unbalanced", "remove_changed", "max_num_constraints"],
                       "_get_entries_and_pds": ["combos_dict_chunk", "entries", "build_pd", "build_grand_pd", "chempots"]})
    wrong = vary(ENUM, ("        if n == cs:\n            run.append(cur)\n            cur = []\n    if cur:\n        run.append(cur)", "        if n == cs:\n            run.append(cur)\n            cur = []"),
                 ("    if cur:\n        run.append(cur)", "    if len(cur) == cs:\n        run.append(cur)"), ("to_iterator(refs), total=len(refs)", "to_iterator(refs[:ncpu]), total=len(refs)"),
                 ("        n = sum(len(c[0]) for c in cur)\n", "        n = len(cur)\n"),
                 ("to_iterator(refs), total=len(run)", "to_iterator(refs[:ncpu]), total=len(run)"), ("for chunk in run:", "for chunk in run[:self.max_num_jobs]:"),
                 ("for chunk in run:", "for chunk in run[1:]:"), ("for chunk in run:", "for chunk in run[:-1]:"))
    ctx.spec("jobs", B, "enumerate", ENUM, opaque=H, bad=wrong)
    cut = ("fold", "to_iterator", "from_rxns")
    ctx.spec("jobs", B, "enumerate", ENUM, cut=cut, opaque=H, construct="enumerate:result")
    ctx.spec("jobs", B, "enumerate", ENUM, what=folds("to_iterator", "from_rxns"), opaque=H, construct="enumerate:loops")
    ctx.spec("jobs", B, "enumerate", ENUM, what=effects(kinds=("mutlocal",)), opaque=H, construct="enumerate:filling chunks")
    for n in ("_react", "_get_entries_and_pds", "from_rxns", "_get_combos_dict", "_get_open_combos", "_get_initialized_entries", "_get_rxn_iterable", "_rxn_iter_length"):
        ctx.spec("jobs", B, "enumerate", ENUM, what=effects(n), cut=cut, opaque=H, construct=f"enumerate:{n}")
