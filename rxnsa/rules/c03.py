"""Balancing and construction of reactions."""

META = {
    "title": "Balanced reactions conserve elements, respect sides and report errors",
    "statement": (
        "A reaction lists as reactants exactly its phases with negative coefficients and as products exactly those with "
        "positive ones (entries alike), and is called balanced only if what both sides contain agrees within tolerance. "
        "Balancing considers only solutions that conserve every element, keeps the one with the fewest phases on the "
        "wrong side or vanishing, reports that number, accepts a solution at once only when it is zero, and gives an "
        "unbalanced reaction with zero coefficients when no solution exists; the result covers all given reactants then "
        "all given products, keeps the caller's data plus the number of constraints, and is open exactly when chemical "
        "potentials are given. A reaction read from text or formulas has its left side as reactants and its right side "
        "as products."
    ),
    "over": ["inputs"],
    "quant": "every list of reactants, products and entries, any data and chemical potentials",
    "why": "tests balance a few textbook reactions, all of which have an error-free solution found first",
    "files": ["src/rxn_network/reactions/basic.py", "src/rxn_network/reactions/computed.py",
              "src/rxn_network/reactions/open.py"],
    "mech": [("split by sign and balanced flag", "BasicReaction and ComputedReaction constructors"),
             ("balancing", "balance() of the three reaction classes"),
             ("text and formulas", "BasicReaction.from_string, from_formulas")],
}
FLOOR = 6


def rules(ctx):
    R = "balance"
    for side, op in (("reactant", "<"), ("product", ">")):
        ctx.spec("sides", "BasicReaction", "__init__", f"""
def f(self, compositions, coefficients, balanced=None, data=None, lowest_num_errors=0):
    comps = [Composition(c) for c in compositions]
    self.{side}_coeffs = {{comp: coeff for comp, coeff in zip(comps, np.array(coefficients)) if coeff {op} 0}}
""", what=f"store:{side}_coeffs", construct=f"BasicReaction.{side}_coeffs")
        ctx.spec("sides", "BasicReaction", f"{side}s", f"def f(self):\n    return list(self.{side}_coeffs.keys())")
        for c in ("ComputedReaction", "OpenComputedReaction"):
            ctx.spec("sides", c, "__init__", f"""
def f(self, entries, coefficients, data=None, lowest_num_errors=0):
    self.{side}_entries = [entry for entry, coeff in zip(entries, coefficients) if coeff {op} 0]
""", what=f"store:{side}_entries", construct=f"{c}.{side}_entries")
    ctx.spec("flag", "BasicReaction", "__init__", """
def f(self, compositions, coefficients, balanced=None, data=None, lowest_num_errors=0):
    comps = [Composition(c) for c in compositions]
    coeffs = np.array(coefficients)
    rc = {comp: coeff for comp, coeff in zip(comps, coeffs) if coeff < 0}
    pc = {comp: coeff for comp, coeff in zip(comps, coeffs) if coeff > 0}
    if balanced is not None:
        self.balanced = balanced
    else:
        sr = sum([k * abs(v) for k, v in rc.items()], Composition({}))
        sp = sum([k * abs(v) for k, v in pc.items()], Composition({}))
        self.balanced = bool(sr.almost_equals(sp, rtol=0, atol=TOLERANCE))
""", what="store:balanced", construct="BasicReaction.balanced")
    ctx.spec("flag", "BasicReaction", "__init__", """
def f(self, compositions, coefficients, balanced=None, data=None, lowest_num_errors=0):
    self.lowest_num_errors = lowest_num_errors
""", what="store:lowest_num_errors", construct="BasicReaction.lowest_num_errors")
    ctx.spec("flag", "BasicReaction", "__init__", """
def f(self, compositions, coefficients, balanced=None, data=None, lowest_num_errors=0):
    self.data = data if data else {}
""", what="store:data", construct="BasicReaction.data")
    bal = """
    all_elems = sorted({elem for c in comps for elem in c.elements})
    mat = np.array([[c[el] for el in all_elems] for c in comps]).T
    diff = len(comps) - np.linalg.matrix_rank(mat)
    ncon = diff if diff >= 2 else 1
    first = len(reactants)
    pcons = chain.from_iterable([combinations(range(first, len(comps)), n) for n in range(ncon, 0, -1)])
    rcons = chain.from_iterable([combinations(range(first), n) for n in range(ncon, 0, -1)])
    errs = np.inf
    best = np.zeros(len(comps))
    for cons in chain(pcons, rcons):
        n_constr = len(cons)
        m = np.append(mat, np.zeros((n_constr, len(comps))), axis=0)
        b = np.zeros((len(all_elems) + n_constr, 1))
        b[-n_constr:] = 1 if min(cons) >= first else -1
        for num, idx in enumerate(cons):
            m[len(all_elems) + num, idx] = 1
        coeffs = np.matmul(np.linalg.pinv(m), b)
        if np.allclose(np.matmul(mat, coeffs), np.zeros((len(all_elems), 1))):
            signs = np.array([-1] * len(reactants) + [+1] * len(products))
            num_errors = np.sum(np.multiply(signs, coeffs.T) < TOLERANCE)
            if num_errors == 0:
                errs = 0
                best = coeffs
                break
            if num_errors < errs:
                errs = num_errors
                best = coeffs
    best = np.squeeze(best)
"""
    basic = """
def f(cls, reactants, products, data=None):
    comps = list(reactants + products)
""" + bal + """
    ok = not (best is None or errs == np.inf)
    return cls(compositions=comps, coefficients=best if ok else np.zeros(len(comps)), balanced=ok,
               data={**(data or {}), "num_constraints": ncon}, lowest_num_errors=errs)
"""
    from ..check import field

    for fld in ("compositions", "coefficients", "balanced", "data", "lowest_num_errors"):
        ctx.spec(R, "BasicReaction", "balance", basic, sel=field(fld), construct=f"BasicReaction.balance:{fld}")
    comp = """
def f(cls, reactant_entries, product_entries, %sdata=None):
    reactants = [e.composition.reduced_composition for e in reactant_entries]
    products = [e.composition.reduced_composition for e in product_entries]
    coeffs, errs, ncon = cls._balance_coeffs(reactants, products)
    kw = dict(entries=list(reactant_entries) + list(product_entries), coefficients=coeffs,
              data={**(data or {}), "num_constraints": ncon}, lowest_num_errors=errs)
    %s
"""
    helper = ctx.p.cls("BasicReaction").members.get("_balance_coeffs")
    for c, a in (("ComputedReaction", ("", "return ComputedReaction(**kw)")),
                 ("OpenComputedReaction", ("chempots, ",
                                          "return ComputedReaction(**kw) if not chempots else OpenComputedReaction(chempots=chempots, **kw)"))):
        text = comp % a
        if helper is None:
            text = text.replace("coeffs, errs, ncon = cls._balance_coeffs(reactants, products)",
                                ("comps = reactants + products\n" + bal.replace("\n    ", "\n") + "coeffs = best").replace("\n", "\n    "))
        for fld in ("entries", "coefficients", "data", "lowest_num_errors", "chempots"):
            if fld == "chempots" and c == "ComputedReaction":
                continue
            ctx.spec(R, c, "balance", text, sel=field(fld), construct=f"{c}.balance:{fld}")
    ctx.spec("text", "BasicReaction", "from_formulas", """
def f(cls, reactants, products):
    return cls.balance(reactants=[Composition(r) for r in reactants], products=[Composition(p) for p in products])
""")
    ctx.spec("text", "BasicReaction", "from_string", r"""
def f(cls, rxn_string):
    rct, prod = rxn_string.split("->")
    def amounts(s):
        return {Composition(m.group(2)): float(m.group(1) or 1)
                for m in re.finditer(r"([\d\.]*(?:[eE]-?[\d\.]+)?)\s*([A-Z][\w\.\(\)]*)", s)}
    rc, pc = amounts(rct), amounts(prod)
    r_comps, r_coefs = zip(*[(comp, -1 * coeff) for comp, coeff in rc.items()])
    p_comps, p_coefs = zip(*list(pc.items()))
    return BasicReaction(r_comps + p_comps, r_coefs + p_coefs)
""")
