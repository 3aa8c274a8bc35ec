"""Cost functions and property calculators."""

META = {
    "title": "Costs and calculators use exactly the requested properties of the reaction",
    "statement": (
        "A cost function combines each requested property of a reaction, taken from the reaction's data when recorded there "
        "and otherwise from the reaction itself, with its own weight, raises an error when a property is missing, and never "
        "increases when the weighted sum falls. Decorating a reaction returns a copy carrying the calculated value under the "
        "calculator's name and leaves the original untouched; calculating for many reactions is calculating for each in "
        "order. The chemical potential distance aggregates every reactant-product and product-product interface exactly once "
        "with the requested function, and the competition calculators report the hull quantity they are named after."
    ),
    "over": ["inputs", "configurations"],
    "quant": "every reaction, list of properties and weights, aggregation function and hull",
    "why": "tests evaluate default parameters on a few reactions and the three named aggregation functions on one diagram",
    "files": ["src/rxn_network/costs/base.py", "src/rxn_network/costs/functions.py", "src/rxn_network/costs/calculators.py"],
    "mech": [("cost functions", "Softplus.evaluate, WeightedSum.evaluate"), ("decoration", "Calculator.decorate, decorate_many, calculate_many"),
             ("distance", "ChempotDistanceCalculator.calculate"), ("competition", "Primary/SecondaryCompetitionCalculator")],
}
FLOOR = 12

VALUES = """
    values = []
    for p in self.params:
        if rxn.data and p in rxn.data:
            v = rxn.data[p]
        elif hasattr(rxn, p):
            v = getattr(rxn, p)
        else:
            raise ValueError("x")
        values.append(v)
    total = float(np.dot(np.array(values), self.weights))
"""

HULL = ("get_primary_competition(rxn)", "get_secondary_competition(rxn)", "get_secondary_competition(rxn, include_e_hull=True)",
        "get_secondary_competition_max_energy(rxn)", "get_secondary_competition_area(rxn)", "get_energy_above_hull(rxn)")


def rules(ctx):
    from ..check import effects

    totals = ("np.dot(np.array(values), self.weights)",
              ("np.sum(np.array(values))", "np.average(np.array(values), weights=self.weights)", "np.sum(self.weights)",
               "np.max(np.array(values) * self.weights)", "np.mean(np.array(values) * self.weights)", "np.mean(np.array(values))",
               "np.dot(np.array(values), self.weights) / np.sum(self.weights)", "np.dot(np.array(values), np.abs(self.weights))",
               "np.dot(np.array(values), sorted(self.weights))", "np.dot(np.abs(np.array(values)), self.weights)"))
    soft = "    return np.log(1 + (273 / self.temp) * np.exp(total))\n"
    for c, ret in (("Softplus", soft), ("WeightedSum", "    return total\n")):
        src = "def f(self, rxn):" + VALUES + ret
        bad = [src.replace(totals[0], t) for t in totals[1]]
        if c == "Softplus":
            bad += [src.replace("np.log(", "np.log10("), src.replace("np.log(", "np.log2("), src.replace("np.exp(", "np.abs("),
                    src.replace("np.log(1 +", "np.log(1e-3 +"), src.replace("np.log(1 +", "np.log(2 +"), src.replace("np.exp(", "np.exp2(")]
            bad += [src.replace(soft, "    return np.log1p(273 / self.temp) * np.exp(total)\n"),
                    src.replace(soft, "    return max(0.0, total)\n"), src.replace(soft, "    return np.log1p(np.exp(total))\n")]
        ctx.spec("cost", c, "evaluate", src, bad=bad)
    for c, sig in (("Softplus", "temp=300, params=None, weights=None"), ("WeightedSum", "params=None, weights=None")):
        src = f"""
def f(self, {sig}):
    if params is None:
        params = ["energy_per_atom"]
    if weights is None:
        weights = [1.0]
"""
        if c == "Softplus":
            src += "    if temp <= 0:\n        raise ValueError('x')\n    self.temp = temp\n"
        src += "    self.params = params\n    self.weights = np.array(weights)\n"
        for a in ("params", "weights") + (("temp",) if c == "Softplus" else ()):
            ctx.spec("cost", c, "__init__", src, what=f"store:{a}", construct=f"{c}.{a}")
        ctx.spec("cost", c, "__init__", src, what="raises", construct=f"{c}.__init__:raises")
    C = "PrimaryCompetitionCalculator"
    ctx.spec("decorate", C, "calculate_many", "def f(self, rxns):\n    return [self.calculate(r) for r in rxns]")
    ctx.spec("decorate", C, "decorate_many", "def f(self, rxns):\n    return [self.decorate(r) for r in rxns]")
    ctx.spec("decorate", C, "decorate", """
def f(self, rxn):
    new = deepcopy(rxn)
    if not new.data:
        new.data = {}
    new.data[self.name] = self.calculate(new)
    return new
""")
    ctx.spec("decorate", C, "decorate", """
def f(self, rxn):
    new = deepcopy(rxn)
    if not new.data:
        new.data = {}
    new.data[self.name] = self.calculate(new)
    return new
""", what=effects(kinds=("mut", "setattr")), construct="Calculator.decorate:writes")
    for c, e in (("PrimaryCompetitionCalculator", "get_primary_competition(rxn)"),
                 ("SecondaryCompetitionCalculator", "get_secondary_competition(rxn)"),
                 ("SecondaryCompetitionWithEhullCalculator", "get_secondary_competition(rxn, include_e_hull=True)"),
                 ("SecondaryCompetitionMaxCalculator", "get_secondary_competition_max_energy(rxn)"),
                 ("SecondaryCompetitionAreaCalculator", "get_secondary_competition_area(rxn)")):
        ctx.spec("competition", c, "calculate", f"def f(self, rxn):\n    return self.irh.{e}",
                 bad=[f"def f(self, rxn):\n    return self.irh.{o}" for o in HULL if o != e])
        nm = {"Primary": "primary_competition", "SecondaryCompetitionCalculator": "secondary_competition",
              "SecondaryCompetitionWith": "secondary_competition_with_ehull", "SecondaryCompetitionMax": "secondary_competition_max",
              "SecondaryCompetitionArea": "secondary_competition_area"}
        key = next(v for k, v in nm.items() if c.startswith(k))
        for a in ("irh", "name"):
            ctx.spec("competition", c, "__init__", f"def f(self, irh, name={key!r}):\n    self.{a} = {a}", what=f"store:{a}", construct=f"{c}.{a}")
    D = "ChempotDistanceCalculator"
    init = """
def f(self, cpd, mu_func="sum", name="chempot_distance"):
    self.cpd = cpd
    self.name = name
    if mu_func == "max":
        self.mu_func = max
    elif mu_func == "mean":
        self.mu_func = np.mean
    elif mu_func == "sum":
        self.mu_func = sum
    elif isinstance(mu_func, str):
        raise ValueError("x")
    else:
        self.mu_func = mu_func
"""
    for a in ("cpd", "name", "mu_func"):
        ctx.spec("distance", D, "__init__", init, what=f"store:{a}", construct=f"{D}.{a}")
    ctx.spec("distance", D, "__init__", init, what="raises", construct=f"{D}.__init__:raises",
             bad=[init.replace("elif isinstance(mu_func, str):", t) for t in
                  ("elif not mu_func:", "elif not callable(mu_func) and mu_func:", "elif mu_func is None:", "elif not callable(mu_func):")])
    calc = """
def f(self, rxn):
    rs = rxn.reactant_entries
    ps = rxn.product_entries
    if hasattr(rxn, "grand_entries"):
        rs = [e for e, c in zip(rxn.grand_entries, rxn.coefficients) if c < 0 and e.__class__.__name__ == "GrandPotPDEntry"]
        ps = [e for e, c in zip(rxn.grand_entries, rxn.coefficients) if c > 0 and e.__class__.__name__ == "GrandPotPDEntry"]
    d = [self.cpd.shortest_domain_distance(a[0].composition.reduced_formula, a[1].composition.reduced_formula,
            offset=self.cpd.get_offset(a[0]) + self.cpd.get_offset(a[1]))
         for a in chain(product(rs, ps), combinations(ps, 2))]
    return round(float(self.mu_func(d)), 5)
"""
    ctx.spec("distance", D, "calculate", calc,
             bad=[calc.replace("self.mu_func(d)", m) for m in ("sum(d)", "max(d)", "np.mean(d)", "min(d)", "self.mu_func(set(d))")]
             + [calc.replace("combinations(ps, 2)", x) for x in ("product(ps, ps)", "combinations(rs, 2)", "permutations(ps, 2)",
                "combinations_with_replacement(ps, 2)", "combinations([*rs, *ps], 2)", "zip(ps, ps[1:])", "combinations(ps, 3)", "[]")]
             + [calc.replace("product(rs, ps)", x) for x in ("zip(rs, ps)", "product(ps, rs[:1])", "product(rs, rs)", "combinations(rs, 2)", "[]")])
    ctx.spec("distance", D, "from_entries", """
def f(cls, entries, mu_func="sum", name="chempot_distance", **kwargs):
    return cls(ChemicalPotentialDiagram(entries=entries, **kwargs), mu_func, name)
""")
