"""Operations leave what they are given alone."""

META = {
    "title": "Operations leave the objects they are given unchanged",
    "statement": (
        "No public operation changes an object it is given or is asked of: normalising, copying, reversing, balancing, decorating, "
        "filtering, enumerating, finding or solving pathways, constructing networks, hulls and diagrams, plotting and saving all "
        "work on values of their own, so that the reactions, entries, sets, tables, lists of options and dictionaries passed in, "
        "the receiver, shared module data and memoised results are afterwards what they were before. The only operations that "
        "change their receiver are the mutators: add, update, discard and build_indices of an entry set, and build, set_precursors, "
        "set_target and find_pathways of a network. (An entry set annotates its entries with index and hull distance and can be asked to empty their data; "
        "internal memos do not count.)"
    ),
    "over": ["inputs"],
    "quant": "every public operation and every argument of it, on every path",
    "why": "tests look at what is returned, hardly ever at what was passed in, and sharing shows only in the next use of the argument",
    "files": ["src/rxn_network/costs/base.py", "src/rxn_network/reactions/basic.py", "src/rxn_network/reactions/computed.py",
              "src/rxn_network/reactions/reaction_set.py", "src/rxn_network/entries/entry_set.py", "src/rxn_network/network/network.py",
              "src/rxn_network/pathways/solver.py", "src/rxn_network/thermo/chempot_diagram.py", "src/rxn_network/reactions/plotting.py"],
    "technique": "static analysis: interprocedural ownership (alias and effect) analysis with access depths",
    "note": "Decided from the source on every run: for each public function, which parameters, module data or memoised results it may "
            "change, through local names, attributes, items, iteration, shallow copies and calls inside the package. Calls outside the "
            "package are taken to change nothing but what the listed mutating method names say, and to return new values.",
    "mech": [("own copies", "Calculator.decorate, normalize_to, GibbsEntrySet methods, PathwaySolver.solve, get_pareto_front, yens_ksp, plots")],
}
FLOOR = 300
MUTATORS = {
    ("GibbsEntrySet", "add"), ("GibbsEntrySet", "update"), ("GibbsEntrySet", "discard"), ("GibbsEntrySet", "build_indices"),
    ("ReactionNetwork", "build"), ("ReactionNetwork", "find_pathways"), ("ReactionNetwork", "set_precursors"), ("ReactionNetwork", "set_target"),
}
BUILDERS = ("__init__", "__post_init__", "__new__", "model_post_init")


def rules(ctx):
    from .. import lint
    from ..check import HOLD, VIOL, api_names
    from ..purity import Purity

    lint.own_entries(ctx, "own", "BasicEnumerator", "_get_initialized_entries", "GibbsEntrySet")
    lint.shared_arg(ctx, "own", "OpenComputedReaction", "from_computed_rxn", ("cls", "OpenComputedReaction"), "data",
                    "what is recorded on the open reaction appears on the reaction it was made from")
    pu = Purity(ctx.p)
    api = api_names()
    for f in ctx.p.all_funcs():
        if f.name not in api and f.name not in BUILDERS or f.name.startswith("_") and not f.name.startswith("__"):
            continue
        if f.is_abstract:
            continue

        def go(f=f):
            own = f.cls.name if f.cls is not None else f.mod.name
            s = pu.summary(f, f.cls)
            a = f.node.args
            ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            me = ps[0] if f.cls is not None and ps and not f.is_static else None
            found = {}
            for (r, d), (line, text, g) in sorted(s.mut.items(), key=str):
                if r == me and (f.name in BUILDERS or (own, f.name) in MUTATORS):
                    continue
                found.setdefault(r, (line, text, g))
            for r in [p for p in ps if not (p == me and (f.is_class or f.name in BUILDERS))] + [r for r in found if r not in ps]:
                bad = found.get(r)
                ctx.add("own", f"{own}.{f.name}:{r}", VIOL if bad else HOLD,
                        f"{f.name} changes {r}: {bad[1]} ({bad[2].qual})" if bad else "", bad[2] if bad else f, bad[0] if bad else None)

            if f.name in ("copy", "reverse") and me is not None:
                same = any(r == me and fr == 0 and d == 0 for r, fr, d in s.ret)
                ctx.add("copy", f"{own}.{f.name}", VIOL if same else HOLD, f"{f.name} returns the receiver itself" if same else "", f)

        ctx.guard("own", f.qual, go)
