"""Entry energies: extensivity, temperature dependence, re-heating, adjustments."""

META = {
    "title": "Entry energies follow composition and temperature; re-heating keeps the rest",
    "statement": (
        "The energy of a computed entry is its formation energy plus the given adjustments plus one Gibbs correction for its "
        "composition, volume and temperature; that of a tabulated entry is the tabulated (or linearly interpolated) value "
        "scaled to its composition. Requesting another temperature gives a new entry of the same kind at that temperature "
        "with the same composition, identifier, data and adjustments (only temperature-dependent ones re-evaluated) and "
        "leaves the original alone. A temperature outside the supported range or an unknown phase is rejected with an error."
    ),
    "over": ["inputs", "configurations"],
    "quant": "every composition (reduced or not), volume, temperature (integer or not) and list of adjustments",
    "why": "tests evaluate one structure and CO2 at six temperatures with no adjustments",
    "files": ["src/rxn_network/entries/gibbs.py", "src/rxn_network/entries/experimental.py", "src/rxn_network/entries/interpolated.py",
              "src/rxn_network/entries/corrections.py"],
    "mech": [("Gibbs correction", "GibbsComputedEntry.gibbs_adjustment, _g_delta_sisso, _sum_g_i, _reduced_mass"),
             ("tabulated energies", "ExperimentalReferenceEntry._get_energy, _validate_temperature"),
             ("re-heating", "get_new_temperature, as_dict, from_dict of the entry classes"),
             ("adjustments", "CarbonateCorrection, CarbonDioxideAtmosphericCorrection")],
}
FLOOR = 12


def rules(ctx):
    from ..check import effects, vary

    G, E, I = "GibbsComputedEntry", "ExperimentalReferenceEntry", "InterpolatedEntry"
    init = """
def f(self, composition, formation_energy_per_atom, volume_per_atom, temperature, energy_adjustments=None, parameters=None,
      data=None, entry_id=None):
    comp = Composition(composition)
    self._composition = comp
    self.volume_per_atom = volume_per_atom
    n = comp.num_atoms
    if temperature < 300 or temperature > 2000:
        raise ValueError("x")
    adjs = []
    if energy_adjustments is not None:
        adjs = [a for a in energy_adjustments if a.name != "Gibbs SISSO Correction"]
    adjs.append(ConstantEnergyAdjustment(
        self.gibbs_adjustment(temperature),
        uncertainty=0.05 * n,
        name="Gibbs SISSO Correction",
        description=f"Gibbs correction: dGf({temperature} K) - dHf (298 K)",
    ))
    if entry_id is None:
        entry_id = f"{comp.reduced_formula}_{volume_per_atom:.4f}"
    super().__init__(composition=comp, energy=n * formation_energy_per_atom, energy_adjustments=adjs, parameters=parameters,
                     data=data, entry_id=entry_id)
    self._composition = comp
    self.formation_energy_per_atom = formation_energy_per_atom
    self.temperature = temperature
"""
    ctx.spec("energy", G, "__init__", init, what="raises", construct=G + ".__init__:raises")
    ctx.spec("energy", G, "__init__", init, what=effects("__init__"), construct=G + ".__init__:base")
    for a in ("volume_per_atom", "formation_energy_per_atom", "temperature", "_composition"):
        ctx.spec("energy", G, "__init__", init, what="store:" + a, construct=f"{G}.{a}")
    ctx.spec("energy", G, "gibbs_adjustment", """
def f(self, temperature):
    c = self._composition
    if c.is_element:
        return 0
    return c.num_atoms * self._g_delta_sisso(self.volume_per_atom, self._reduced_mass(c), temperature) - self._sum_g_i(c, temperature)
""")
    ctx.spec("energy", G, "_g_delta_sisso", """
def f(volume_per_atom, reduced_mass, temp):
    return ((-2.48e-4 * np.log(volume_per_atom) - 8.94e-5 * reduced_mass / volume_per_atom) * temp + 0.181 * np.log(temp) - 0.882)
""")
    ctx.spec("energy", G, "_sum_g_i", """
def f(composition, temperature):
    els = composition.get_el_amt_dict()
    if temperature % 100 > 0:
        return sum(amt * interp1d([float(t) for t in G_ELEMS], [g[el] for g in G_ELEMS.values()])(temperature) for el, amt in els.items())
    return sum(amt * G_ELEMS[str(int(temperature))][el] for el, amt in els.items())
""", bad=["""
def f(composition, temperature):
    els = composition.get_el_amt_dict()
    if temperature % 100 > 0:
        return sum(amt * interp1d([float(t) for t in G_ELEMS], [g[el] for g in G_ELEMS.values()])(temperature) for el, amt in els.items())
    return sum(amt * G_ELEMS[str(temperature)][el] for el, amt in els.items())
"""])
    ctx.spec("energy", G, "_reduced_mass", """
def f(composition):
    rc = composition.reduced_composition
    s = 0.0
    for pair in combinations(rc.get_el_amt_dict().items(), 2):
        m1 = Composition(pair[0][0]).weight
        m2 = Composition(pair[1][0]).weight
        s += (pair[0][1] + pair[1][1]) * (m1 * m2) / (m1 + m2)
    return (1 / ((len(rc.elements) - 1) * rc.num_atoms)) * s
""")
    ctx.spec("energy", G, "from_structure", """
def f(cls, structure, formation_energy_per_atom, temperature, **kwargs):
    return cls(composition=Composition(structure.composition).element_composition, formation_energy_per_atom=formation_energy_per_atom,
               volume_per_atom=structure.volume / structure.num_sites, temperature=temperature, **kwargs)
""")
    reheat = """
def f(self, new_temperature):
    d = self.as_dict()
    for a in d["energy_adjustments"]:
        if "temp" in a:
            a["temp"] = new_temperature
    d["temperature"] = new_temperature
    return self.from_dict(d)
"""
    for c in (G, E):
        ctx.spec("reheat", c, "get_new_temperature", reheat)
        ctx.spec("reheat", c, "get_new_temperature", reheat, what=effects(kinds=("mut", "setattr")), construct=c + ".get_new_temperature:writes")
    from .. import lint

    lint.own(ctx, "reheat", I, "copy", "the copy of the parent class is a plain ComputedEntry")
    ctx.spec("reheat", I, "copy", "def f(self):\n    return deepcopy(self)")
    ctx.spec("reheat", I, "get_new_temperature", "def f(self, new_temperature):\n    return self.copy()")
    for c in (G, I):
        ctx.spec("reheat", c, "copy", "def f(self):\n    return deepcopy(self)")
        ctx.spec("reheat", c, "copy", "def f(self):\n    return deepcopy(self)", what=effects("deepcopy"), construct=c + ".copy:fresh")
    ctx.spec("reheat", I, "get_new_temperature", "def f(self, new_temperature):\n    return self.copy()", what=effects("copy"),
             construct=I + ".get_new_temperature:fresh")
    # what re-heating reads back is what was written
    ctx.spec("record", G, "from_dict", """
def f(cls, d):
    dec = MontyDecoder()
    return cls(composition=d["composition"], formation_energy_per_atom=d["formation_energy_per_atom"],
               volume_per_atom=d["volume_per_atom"], temperature=d["temperature"],
               energy_adjustments=dec.process_decoded(d["energy_adjustments"]), parameters=d["parameters"], data=d["data"],
               entry_id=d["entry_id"])
""")
    asd = """
def f(self):
    old = self.data
    self.data = self._sanitize_data(old)
    r = super().as_dict()
    self.data = old
    r["volume_per_atom"] = self.volume_per_atom
    r["formation_energy_per_atom"] = self.formation_energy_per_atom
    r["temperature"] = self.temperature
    return r
"""
    ctx.spec("record", G, "as_dict", asd)
    ctx.spec("record", G, "as_dict", asd, what="store:data", construct=G + ".as_dict:data")
    ctx.spec("record", G, "as_dict", asd, what=effects("data", "as_dict", kinds=("setattr", "call")), construct=G + ".as_dict:writes")
    ctx.spec("record", G, "_sanitize_data", """
def f(data):
    return {k: ({(str(a) if isinstance(a, Element) else a): b for a, b in v.items()} if isinstance(v, dict) else v) for k, v in data.items()}
""")
    ctx.spec("record", E, "from_dict", """
def f(cls, d):
    dec = MontyDecoder()
    return cls(composition=Composition(d["composition"]), temperature=d["temperature"],
               energy_adjustments=dec.process_decoded(d["energy_adjustments"]), data=d["data"])
""")
    ctx.spec("record", E, "as_dict", """
def f(self):
    d = super().as_dict()
    d["temperature"] = self.temperature
    del d["energy"]
    del d["entry_id"]
    del d["parameters"]
    del d["correction"]
    return d
""")
    ein = """
def f(self, composition, temperature, energy_adjustments=None, data=None):
    formula = composition.reduced_formula
    self.is_deprecated = formula in self.DEPRECATED
    self._validate_temperature(formula, temperature)
    self._temperature = temperature
    super().__init__(composition, self._get_energy(formula, temperature) * composition.get_reduced_formula_and_factor()[1],
                     energy_adjustments=energy_adjustments, data=data, entry_id=f"{self.__class__.__name__}-{formula}_{temperature}")
    self._composition = composition
    self.name = formula
    if self.is_deprecated:
        self.name += " (deprecated)"
"""
    ctx.spec("energy", E, "__init__", ein, what=effects("__init__"), construct=E + ".__init__:base")
    ctx.spec("range", E, "__init__", ein, what=effects("_validate_temperature"), construct=E + ".__init__:validated")
    for a in ("is_deprecated", "_temperature", "_composition", "name"):
        ctx.spec("energy", E, "__init__", ein, what="store:" + a, construct=f"{E}.{a}")
    ctx.spec("range", E, "_validate_temperature", """
def f(self, formula, temperature):
    if self.is_deprecated:
        return
    if formula not in self.REFERENCES:
        raise ValueError("x")
    g = self.REFERENCES[formula]
    if temperature < min(g) or temperature > max(g):
        raise ValueError("x")
""", what="raises")
    GE = """
def f(self, formula, temperature):
    if self.is_deprecated:
        return 0.0
    t = self.REFERENCES[formula]
    if temperature % 100 > 0:
        return interp1d(list(t.keys()), list(t.values()))(temperature)[()]
    return t[temperature]
"""
    ctx.spec("energy", E, "_get_energy", GE, bad=vary(GE, ("list(t.values())", "sorted(t.values())"), ("list(t.keys())", "sorted(t.keys(), reverse=True)"),
             ("if temperature % 100 > 0", "if temperature not in t and temperature > 300"), ("if temperature % 100 > 0", "if temperature > 300"),
             ("if temperature % 100 > 0", "if temperature % 10 > 0"), ("if temperature % 100 > 0", "if temperature % 200 > 0"),
             ("if temperature % 100 > 0", "if False"), ("t[temperature]", "t[round(temperature, -2)]"), ("(temperature)[()]", "(round(temperature))[()]")))
    ctx.spec("energy", I, "__init__", """
def f(self, composition, energy, correction=0.0, energy_adjustments=None, parameters=None, data=None, entry_id=None):
    c = Composition(composition)
    if entry_id is None:
        entry_id = f"{self.__class__.__name__}-{c.formula}"
    super().__init__(c, energy, correction=correction, energy_adjustments=energy_adjustments, parameters=parameters, data=data,
                     entry_id=entry_id)
""", what=effects("__init__"), construct=I + ".__init__:base")
    for c in ("NISTReferenceEntry", "FREEDReferenceEntry"):
        ctx.spec("energy", c, "__init__", """
def f(self, composition, temperature, energy_adjustments=None, data=None):
    super().__init__(composition=composition, temperature=temperature, energy_adjustments=energy_adjustments, data=data)
""", what=effects("__init__", "_validate_temperature"), construct=c + ".__init__")
    # identifiers and flags
    ctx.spec("identity", G, "unique_id", "def f(self):\n    return f'{self.entry_id}_{self.temperature}'")
    ctx.spec("identity", G, "is_experimental", """
def f(self):
    if "theoretical" in self.data:
        return not self.data["theoretical"]
    if "icsd_ids" in self.data:
        return len(self.data["icsd_ids"]) >= 1
    return False
""")
    ctx.spec("identity", E, "unique_id", "def f(self):\n    return self.entry_id")
    ctx.spec("identity", I, "unique_id", "def f(self):\n    return self.entry_id")
    ctx.spec("identity", E, "is_experimental", "def f(self):\n    return True")
    ctx.spec("identity", I, "is_experimental", "def f(self):\n    return False")
    ctx.spec("identity", E, "is_element", "def f(self):\n    return self.composition.is_element")
    for c in (G, E, I):
        ctx.spec("grand", c, "to_grand_entry", "def f(self, chempots):\n    return GrandPotPDEntry(self, chempots)",
                 bad=["def f(self, chempots):\n    return GrandPotPDEntry(self, " + x + ")" for x in ("{k: abs(v) for k, v in chempots.items()}",
                      "{k: -v for k, v in chempots.items()}", "{str(k): v for k, v in chempots.items()}", "{k: min(v, 0) for k, v in chempots.items()}",
                      "{k: v for k, v in chempots.items() if v}", "{k: round(v, 1) for k, v in chempots.items()}")])
    # adjustments
    K = "CarbonateCorrection"
    kin = """
def f(self, num_ions, carbonate_correction=CARBONATE_CORRECTION):
    self._num_ions = num_ions
    self._carbonate_correction = carbonate_correction
    super().__init__(adj_per_atom=carbonate_correction, n_atoms=num_ions, name="Carbonate Correction",
                     description="Correction for dGf with (CO3)2- anion, as fit to MP data (300 K).")
"""
    ctx.spec("adjustment", K, "__init__", kin, what=effects("__init__"), construct=K + ".__init__:base")
    for a in ("_num_ions", "_carbonate_correction"):
        ctx.spec("adjustment", K, "__init__", kin, what="store:" + a, construct=f"{K}.{a}")
    K = "CarbonDioxideAtmosphericCorrection"
    kin = """
def f(self, n_atoms, temp, pco2=PCO2):
    self._pco2 = pco2
    self._temp = temp
    super().__init__(adj_per_atom=self.get_dmu(), n_atoms=n_atoms, name="Atmospheric CO2 Correction",
                     description="Correction for CO2 energy based on partial pressure in the atmosphere")
"""
    ctx.spec("adjustment", K, "__init__", kin, what=effects("__init__"), construct=K + ".__init__:base")
    for a in ("_pco2", "_temp"):
        ctx.spec("adjustment", K, "__init__", kin, what="store:" + a, construct=f"{K}.{a}")
    ctx.spec("adjustment", K, "get_dmu", "def f(self):\n    return (1 / 3) * 8.617e-5 * self.temp * math.log(self.pco2)",
             bad=[f"def f(self):\n    return {x}" for x in ("(1 / 3) * 8.617e-5 * self.temp * math.log10(self.pco2)", "(1 / 3) * 8.617e-5 * self.temp * math.log2(self.pco2)",
                  "(1 / 3) * 8.617e-5 * self.temp * math.log1p(self.pco2)", "(1 / 3) * 8.617e-5 * self.temp * np.log10(self.pco2)", "(1 / 3) * 8.617e-5 * self.temp * math.exp(self.pco2)")])
