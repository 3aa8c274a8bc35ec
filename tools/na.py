"""Properties this family cannot decide here, with the reason (goes to MANIFEST not_applicable)."""
def n(id, title, statement, over, quant, why, files, mech, reason):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason)

NA = [
 n("N01", "Balancing finds a reaction exactly when one exists",
   "For every list of reactants and products, balancing succeeds with coefficients conserving every element to the stated tolerance exactly when some mass-conserving reaction among them exists, and otherwise reports failure.",
   ["inputs"], "every pair of composition lists", "tests balance a few dozen well-conditioned reactions",
   ["src/rxn_network/reactions/basic.py"], [("numerical balancing", "BasicReaction._balance_coeffs")],
   "The coefficients come out of a floating-point rank computation and least-squares solve (numpy); whether the residual is below tolerance for every matrix is a numerical fact about the solver that no static argument over this source bounds. The structural parts (error counting, side preservation, which matrix is solved) are claimed under C03."),
 n("N02", "The k cheapest pathways are exactly the k cheapest",
   "Path finding returns the k simple paths of lowest total cost in the network, in order.",
   ["inputs"], "every network, cost function, precursor set and target", "tests look for paths in one fixture network",
   ["src/rxn_network/network/network.py"], [("k shortest paths", "yens_ksp")],
   "Optimality of Yen's algorithm quantifies over all graphs and weights and depends on the external Dijkstra implementation; it is an algorithm-correctness proof, not a fact visible in the shape of this code. Which edges the search may remove, and that it restores them, is claimed in C13."),
 n("N03", "Interface hull and phase diagram geometry is numerically right",
   "The convex hull of reaction energies versus mixing ratio, the metastable chemical potential domains and the stable phases agree with exact geometry for every set of energies.",
   ["inputs"], "every set of reactions or entries", "tests compare a handful of numbers",
   ["src/rxn_network/reactions/hull.py", "src/rxn_network/thermo/chempot_diagram.py"], [("convex hull", "scipy ConvexHull, HalfspaceIntersection")],
   "The geometry is computed by scipy/qhull in floating point; degenerate inputs, facet merging and tolerances are runtime numerical behaviour outside the source. How the repository consumes the facets is claimed in C21 and C23."),
 n("N04", "Text and object round trips preserve every reaction",
   "Parsing the printed form of any reaction, or loading any object saved to a dictionary, gives back an equal object.",
   ["inputs"], "every reaction, entry, set, network and pathway", "tests round-trip one fixture per class",
   ["src/rxn_network/reactions/basic.py", "src/rxn_network/entries/entry_set.py"], [("parsing", "BasicReaction.from_string"), ("serialisation", "as_dict/from_dict of every class")],
   "Equality after a round trip depends on float formatting (coefficients are rounded when printed) and on the encoders of pymatgen/monty at run time. The decidable clause, that writer and reader agree on every field, is claimed separately."),
 n("N05", "Predicted Gibbs formation energies follow the published descriptor accurately",
   "The estimated finite-temperature formation energy of any solid differs from the experimental value by no more than the published error.",
   ["inputs"], "every composition, volume and temperature", "tests compare a few tabulated numbers",
   ["src/rxn_network/entries/gibbs.py"], [("SISSO descriptor", "GibbsComputedEntry._g_delta_sisso")],
   "An empirical accuracy claim against measurements; there is nothing in the source that could bound it."),
]
