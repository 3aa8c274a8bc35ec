"""Interface reaction hulls."""
from ..check import effects

META = {
    "title": "Interface hulls place, select and score reactions consistently",
    "statement": (
        "An interface hull keeps each reaction with its own mixing ratio and energy (plus one end point of zero energy per reactant), "
        "its stable reactions are exactly those on the lower hull at non-positive energy, and the hull energy at a ratio interpolates "
        "linearly between the two neighbouring stable reactions. Primary competition compares a reaction with every reaction at another "
        "ratio; secondary competition weights every decomposition of both sides by the number of decomposition sequences it occurs in, "
        "identically in the closed and the recursive form, also for reactions of one reactant only. Saving and loading a hull keeps its reactions."
    ),
    "over": ["inputs"],
    "quant": "every pair of reactants and set of reactions between them",
    "why": "tests check a few numbers for one hull whose reactions all lie strictly between the reactants",
    "files": ["src/rxn_network/reactions/hull.py"],
    "mech": [("construction", "InterfaceReactionHull.__init__, get_coordinate"), ("stable reactions", "InterfaceReactionHull.hull_vertices"),
             ("scores", "get_primary_competition, get_secondary_competition, get_decomposition_energy"),
             ("path counting", "count, _altitude_multiplicity, _count_recursive")],
}
FLOOR = 25
CATALAN = [1]
for _n in range(22):
    CATALAN.append(CATALAN[-1] * 2 * (2 * _n + 1) // (_n + 2))

INIT = """
def f(self, c1, c2, reactions):
    self.c1 = Composition(c1).reduced_composition
    self.c2 = Composition(c2).reduced_composition
    self.e1 = None
    self.e2 = None
    for rxn in reactions:
        for e in rxn.reactant_entries:
            if e.composition.reduced_composition == self.c1:
                self.e1 = e
            elif e.composition.reduced_composition == self.c2:
                self.e2 = e
        if self.e1 is not None and self.e2 is not None:
            break
    else:
        raise ValueError("x", c1, c2, reactions)
    ends = [ComputedReaction.balance([self.e1], [self.e1]), ComputedReaction.balance([self.e2], [self.e2])]
    both = reactions + ends
    coords = np.array([(self.get_coordinate(r), r.energy_per_atom) for r in reactions])
    coords = np.append(coords, [[0, 0], [1, 0]], axis=0)
    order = coords[:, 0].argsort()
    self.coords = coords[order]
    self.reactions = [both[i] for i in order]
    self.hull = ConvexHull(self.coords)
    self.endpoint_reactions = ends
"""

RANGE = """
def f(self, x1, x2):
    lo, hi = sorted([x1, x2])
    ylo = self.get_hull_energy(lo)
    yhi = self.get_hull_energy(hi)
    out = []
    if np.isclose(lo, 0.0) and not np.isclose(ylo, 0.0):
        out.append([0.0, 0.0])
    out.append([lo, ylo])
    out.extend([self.coords[i] for i in self.hull_vertices
                if self.coords[i, 0] < hi and self.coords[i, 0] > lo and self.coords[i, 1] <= 0])
    if hi != lo:
        out.append([hi, yhi])
    if np.isclose(hi, 1.0) and not np.isclose(yhi, 0.0):
        out.append([1.0, 0.0])
    out = np.array(out)
    return out[out[:, 0].argsort()]
"""

REC = """
def f(self, x1, x2, use_x_min_ref=True, use_x_max_ref=True):
    pts = self.get_coords_in_range(x1, x2)
    if not use_x_min_ref and pts[1, 0] == 0.0:
        pts = pts[1:]
    if not use_x_max_ref and pts[-1, 0] == 1.0:
        pts = pts[:-1]
    xa, ya = pts[0]
    xb, yb = pts[-1]
    mid = pts[1:-1, :]
    if len(mid) == 0:
        return 0, 1
    if len(mid) == 1:
        return self._calculate_altitude([xa, ya], mid[0], [xb, yb]), 1
    val = 0
    total = 0
    for c in mid:
        ra = use_x_min_ref
        rb = use_x_max_ref
        if c[0] == 0.0 and not np.isclose(c[1], 0.0):
            ra = False
        elif c[0] == 1.0 and not np.isclose(c[1], 0.0):
            rb = False
        h = self._calculate_altitude([xa, ya], c, [xb, yb])
        le, ln = self.get_decomposition_energy_and_num_paths_recursive(xa, c[0], ra, rb)
        re, rn = self.get_decomposition_energy_and_num_paths_recursive(c[0], xb, ra, rb)
        val += h * (ln * rn) + le * rn + re * ln
        total += ln * rn
    return val, total
"""

SECOND = """
def f(self, reaction, normalize=True, include_e_hull=False, recursive=False):
    x = self.get_coordinate(reaction)
    if not recursive:
        le = self.get_decomposition_energy(0, x)
        ln = self.count(len(self.get_coords_in_range(0, x)) - 2)
        re = self.get_decomposition_energy(x, 1)
        rn = self.count(len(self.get_coords_in_range(x, 1)) - 2)
    else:
        le, ln = self.get_decomposition_energy_and_num_paths_recursive(0, x)
        re, rn = self.get_decomposition_energy_and_num_paths_recursive(x, 1)
    if ln == 0:
        ln = 1
    if rn == 0:
        rn = 1
    e = le * rn + re * ln
    if normalize:
        e = e / (ln * rn)
    if include_e_hull:
        e -= self.get_energy_above_hull(reaction)
    return -1 * e
"""

COUNT_REC = """
def f(self, n, cache=None):
    if cache is None:
        cache = []
    if n == 0:
        return 1, [1]
    if n == 1:
        return 1, [1, 1]
    if len(cache) >= n:
        return cache[n], cache
    total = 0
    big = []
    for i in range(n):
        l, c1 = self._count_recursive(i, big)
        r, c2 = self._count_recursive(n - i - 1, big)
        if len(c1) > len(big):
            big = c1
        if len(c2) > len(big):
            big = c2
        total += l * r
    return total, [*big, total]
"""


def rules(ctx):
    H = "InterfaceReactionHull"
    CO = """
def f(self, reaction):
    a = reaction.reactant_atomic_fractions.get(self.c1, 0)
    b = reaction.reactant_atomic_fractions.get(self.c2, 0)
    try:
        x = b / (a + b)
    except ZeroDivisionError as e:
        raise ValueError("x") from e
    return round(x, 12)
"""
    ctx.spec("place", H, "get_coordinate", CO)
    for a in ("c1", "c2", "e1", "e2", "coords", "reactions", "hull", "endpoint_reactions"):
        ctx.spec("place", H, "__init__", INIT, what=f"store:{a}", construct=f"__init__:{a}", opaque=("get_coordinate",))
    ctx.spec("place", H, "__init__", INIT, what="raises", construct="__init__:raises", opaque=("get_coordinate",))
    ctx.spec("stable", H, "hull_vertices", """
def f(self):
    return np.array([i for i in self.hull.vertices
                     if self.coords[i, 1] <= 0 and np.isclose(self.coords[self.coords[:, 0] == self.coords[i, 0]][:, 1].min(), self.coords[i, 1])])
""")
    ctx.spec("stable", H, "stable_reactions", """
def f(self):
    return [r for i, r in enumerate(self.reactions) if i in self.hull_vertices]
""")
    ctx.spec("stable", H, "unstable_reactions", """
def f(self):
    return [r for i, r in enumerate(self.reactions) if i not in self.hull_vertices]
""")
    ctx.spec("energy", H, "get_reactions_by_coordinate", """
def f(self, coordinate):
    v = np.sort(self.hull_vertices)
    for i in range(len(v) - 1):
        a = v[i]
        b = v[i + 1]
        xa = self.coords[a, 0]
        xb = self.coords[b, 0]
        if np.isclose(coordinate, xa):
            return {self.reactions[a]: 1.0}
        if np.isclose(coordinate, xb):
            return {self.reactions[b]: 1.0}
        if xa < coordinate < xb:
            return {self.reactions[a]: (xb - coordinate) / (xb - xa), self.reactions[b]: (coordinate - xa) / (xb - xa)}
    raise ValueError("x")
""")
    ctx.spec("energy", H, "get_hull_energy", """
def f(self, coordinate):
    return sum(w * r.energy_per_atom for r, w in self.get_reactions_by_coordinate(coordinate).items())
""", opaque=("get_reactions_by_coordinate",))
    ctx.spec("energy", H, "get_energy_above_hull", """
def f(self, reaction):
    x, y = self.coords[self.reactions.index(reaction)]
    return y - self.get_hull_energy(x)
""", opaque=("get_hull_energy",))
    ctx.spec("range", H, "get_coords_in_range", RANGE, opaque=("get_hull_energy",))
    ctx.spec("scores", H, "get_primary_competition", """
def f(self, reaction):
    m = np.where(self.coords[:, 0] == self.get_coordinate(reaction))[0]
    rest = self.reactions[:m.min()] + self.reactions[m.max() + 1:]
    return reaction.energy_per_atom - min([r.energy_per_atom for r in rest])
""", opaque=("get_coordinate",))
    ctx.spec("scores", H, "_calculate_altitude", """
def f(c_left, c_mid, c_right):
    x1, y1 = c_left
    x2, y2 = c_mid
    x3, y3 = c_right
    return y2 - (y1 + (x2 - x1) / (x3 - x1) * (y3 - y1))
""")
    ctx.spec("count", H, "_count_recursive", COUNT_REC)
    ctx.spec("count", H, "count", f"""
def f(self, num):
    num = max(num, 0)
    known = {CATALAN}
    return known[num] if num <= 22 else self._count_recursive(num)[0]
""", opaque=("_count_recursive",))
    ctx.spec("count", H, "_altitude_multiplicity", """
def f(self, n_left, n_right, n):
    k = n - n_left - n_right - 1
    if k < 0:
        return 0
    return self.count(n_left) * self.count(n_right) * self.count(k)
""", opaque=("count",))
    DE = """
def f(self, x1, x2):
    pts = self.get_coords_in_range(x1, x2)
    e = 0
    for c in combinations(range(len(pts)), 3):
        i, j, k = sorted(c)
        a, b, d = pts[[i, j, k]]
        e += self._altitude_multiplicity(j - i - 1, k - j - 1, len(pts) - 2) * self._calculate_altitude(a, b, d)
    return e
"""
    op = ("get_coords_in_range", "_altitude_multiplicity", "_calculate_altitude")
    ctx.spec("scores", H, "get_decomposition_energy", DE, opaque=op)
    ctx.spec("scores", H, "get_max_decomposition_energy", """
def f(self, x1, x2):
    pts = self.get_coords_in_range(x1, x2)
    best = 0
    for c in combinations(range(len(pts)), 3):
        i, j, k = sorted(c)
        a, b, d = pts[[i, j, k]]
        e = self._calculate_altitude(a, b, d)
        if e < best:
            best = e
    return best
""", opaque=op)
    ctx.spec("scores", H, "get_decomposition_area", """
def f(self, x1, x2):
    pts = self.get_coords_in_range(x1, x2)
    if len(pts) <= 2:
        return 0
    return ConvexHull(pts, qhull_options="QJ i").volume
""", opaque=op)
    old = REC.replace("""        ra = use_x_min_ref
        rb = use_x_max_ref
""", "").replace("            ra = False", "            use_x_min_ref = False").replace("            rb = False", "            use_x_max_ref = False") \
        .replace("c[0], ra, rb)", "c[0], use_x_min_ref, use_x_max_ref)").replace("xb, ra, rb)", "xb, use_x_min_ref, use_x_max_ref)")
    ctx.spec("scores", H, "get_decomposition_energy_and_num_paths_recursive", REC, opaque=op + ("get_decomposition_energy_and_num_paths_recursive",), bad=[old])
    op2 = ("get_coordinate", "get_decomposition_energy", "count", "get_coords_in_range", "get_decomposition_energy_and_num_paths_recursive",
           "get_energy_above_hull", "get_max_decomposition_energy", "get_decomposition_area")
    ctx.spec("scores", H, "get_secondary_competition", SECOND, opaque=op2)
    for n in ("count", "get_coords_in_range", "get_decomposition_energy", "get_decomposition_energy_and_num_paths_recursive", "get_energy_above_hull"):
        ctx.spec("scores", H, "get_secondary_competition", SECOND, what=effects(n), opaque=op2, construct="get_secondary_competition:" + n)
    R = "get_decomposition_energy_and_num_paths_recursive"
    for n in ("_calculate_altitude", R):
        ctx.spec("scores", H, R, REC, what=effects(n), opaque=op + (R,), construct=f"{R}:{n}")
    ctx.spec("scores", H, "get_secondary_competition_max_energy", """
def f(self, reaction):
    x = self.get_coordinate(reaction)
    return -1 * (self.get_max_decomposition_energy(0, x) + self.get_max_decomposition_energy(x, 1))
""", opaque=op2)
    ctx.spec("scores", H, "get_secondary_competition_area", """
def f(self, reaction):
    x = self.get_coordinate(reaction)
    return self.get_decomposition_area(0, x) + self.get_decomposition_area(x, 1)
""", opaque=op2)
    from .. import lint
    lint.own(ctx, "saving", H, "as_dict", "saving would include the end point reactions the constructor adds again")
    ctx.spec("saving", H, "as_dict", """
def f(self):
    d = super().as_dict()
    d["reactions"] = [r.as_dict() for r in self.reactions if not any(r is e for e in self.endpoint_reactions)]
    return d
""")
