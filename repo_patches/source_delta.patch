From ac0ce4c7f687db8913317ddece8e0ee14cfc9271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 01/63] fix: weight open product atomic fractions by their
 coefficients

---
 src/rxn_network/reactions/open.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 70c8e5d..d6855b2 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -197,7 +197,7 @@ class OpenComputedReaction(ComputedReaction):
             raise ValueError("Reaction is not balanced")
 
         return {
-            c.reduced_composition: sum(c[el] for el in self.elements) / self.num_atoms
+            c.reduced_composition: coeff * sum(c[el] for el in self.elements) / self.num_atoms
             for c, coeff in self.product_coeffs.items()
         }
 
-- 
2.43.0


From c27f2ec212cae0ed2a485f2c81d9b42db2cd5411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 02/63] fix: let OpenComputedReaction.get_new_temperature
 default to recomputing its entries

---
 src/rxn_network/reactions/open.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index d6855b2..29a5c0a 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -104,7 +104,7 @@ class OpenComputedReaction(ComputedReaction):
 
         return ComputedReaction(**kwargs) if not chempots else cls(chempots=chempots, **kwargs)
 
-    def get_new_temperature(self, new_temperature: float, entries_at_temp: dict | None) -> OpenComputedReaction:
+    def get_new_temperature(self, new_temperature: float, entries_at_temp: dict | None = None) -> OpenComputedReaction:
         """Returns a new reaction with the temperature changed.
 
         Args:
-- 
2.43.0


From cafe9170f63951acf26e2bb94ac65f92367affd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 03/63] fix: do not modify the input of
 OpenComputedReaction.from_dict

---
 src/rxn_network/reactions/open.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 29a5c0a..4e5a2da 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -229,8 +229,8 @@ class OpenComputedReaction(ComputedReaction):
     @classmethod
     def from_dict(cls, d) -> OpenComputedReaction:
         """Returns an OpenComputedReaction object from a dictionary representation."""
-        d["chempots"] = {Element(symbol): u for symbol, u in d["chempots"].items()}
-        return super().from_dict(d)
+        chempots = {Element(symbol): u for symbol, u in d["chempots"].items()}
+        return super().from_dict({**d, "chempots": chempots})
 
     def __repr__(self) -> str:
         cp = f"({','.join([f'mu_{e}={m}' for e, m in self.chempots.items()])})"
-- 
2.43.0


From 4605d38820517563c1e5590b47ef986e35c13a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 04/63] fix: keep chemical potentials when normalizing an open
 reaction

---
 src/rxn_network/reactions/open.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 4e5a2da..c258a62 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -179,6 +179,24 @@ class OpenComputedReaction(ComputedReaction):
             self.lowest_num_errors,
         )
 
+    def normalize_to(self, comp: Composition, factor: float = 1) -> OpenComputedReaction:
+        """Normalizes the reaction to one of the compositions via the provided factor.
+
+        Args:
+            comp: Composition object to normalize to
+            factor: factor to normalize to. Defaults to 1.
+        """
+        return self.from_computed_rxn(super().normalize_to(comp, factor), self.chempots)
+
+    def normalize_to_element(self, element: Element, factor: float = 1) -> OpenComputedReaction:
+        """Normalizes the reaction to one of the elements via the provided factor.
+
+        Args:
+            element: Element to normalize to.
+            factor: Factor to normalize to. Defaults to 1.
+        """
+        return self.from_computed_rxn(super().normalize_to_element(element, factor), self.chempots)
+
     @cached_property
     def reactant_atomic_fractions(self) -> dict:
         """Returns the atomic mixing ratio of reactants in the reaction."""
-- 
2.43.0


From cec0055cb21c398147d26ba3f4c75e9d82209897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 05/63] fix: do not write into the caller's data when balancing
 (reactions/open.py)

---
 src/rxn_network/reactions/open.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index c258a62..93b8af4 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -89,9 +89,7 @@ class OpenComputedReaction(ComputedReaction):
         product_comps = [e.composition.reduced_composition for e in product_entries]
         coefficients, lowest_num_errors, num_constraints = cls._balance_coeffs(reactant_comps, product_comps)
 
-        if not data:
-            data = {}
-        data["num_constraints"] = num_constraints
+        data = {**(data or {}), "num_constraints": num_constraints}
 
         entries = list(reactant_entries) + list(product_entries)
 
-- 
2.43.0


From ef56c98513fc86b78469e42254eca45c1d9abdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 06/63] fix: do not write into the caller's data when balancing
 (reactions/computed.py)

---
 src/rxn_network/reactions/computed.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/rxn_network/reactions/computed.py b/src/rxn_network/reactions/computed.py
index 0b2a2a1..c5d27a0 100644
--- a/src/rxn_network/reactions/computed.py
+++ b/src/rxn_network/reactions/computed.py
@@ -67,9 +67,7 @@ class ComputedReaction(BasicReaction):
         product_comps = [e.composition.reduced_composition for e in product_entries]
         coefficients, lowest_num_errors, num_constraints = cls._balance_coeffs(reactant_comps, product_comps)
 
-        if not data:
-            data = {}
-        data["num_constraints"] = num_constraints
+        data = {**(data or {}), "num_constraints": num_constraints}
 
         return cls(
             entries=list(reactant_entries) + list(product_entries),
-- 
2.43.0


From 98350ae81dac50520096eeaebd93be8d22f5697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 07/63] fix: do not write into the caller's data when balancing
 (reactions/basic.py)

---
 src/rxn_network/reactions/basic.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 668b91b..928ea0c 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -96,9 +96,7 @@ class BasicReaction(Reaction):
         """
         compositions = list(reactants + products)
         coeffs, lowest_num_errors, num_constraints = cls._balance_coeffs(reactants, products)
-        if not data:
-            data = {}
-        data["num_constraints"] = num_constraints
+        data = {**(data or {}), "num_constraints": num_constraints}
 
         balanced = True
         if coeffs is None or lowest_num_errors == np.inf:
-- 
2.43.0


From 1fc1052c4001050b9b4d13dee7519a08ebda808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 08/63] fix: is_separable accepts a target that is only a
 reactant

---
 src/rxn_network/reactions/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 928ea0c..954f0a4 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -210,7 +210,7 @@ class BasicReaction(Reaction):
         products = set(deepcopy(self.products))
 
         for t in identified_targets:
-            products.remove(t)
+            products.discard(t)
 
         are_separable = []
         for comp in products:
-- 
2.43.0


From daba3c47508188ffaaac9678be1d7f8cb7d27bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 09/63] fix: recognise common gas byproducts in is_separable

---
 src/rxn_network/reactions/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 954f0a4..6406858 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -214,7 +214,7 @@ class BasicReaction(Reaction):
 
         are_separable = []
         for comp in products:
-            if comp in COMMON_GASES or added_elems.issuperset(comp.elements):
+            if comp.reduced_formula in COMMON_GASES or added_elems.issuperset(comp.elements):
                 are_separable.append(True)
             else:
                 are_separable.append(False)
-- 
2.43.0


From 142168bb6f78482d3704a027ccbdb0a4e2854dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 10/63] fix: equal reactions have equal hashes
 (reactions/basic.py)

---
 src/rxn_network/reactions/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 6406858..f27b369 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -478,8 +478,8 @@ class BasicReaction(Reaction):
 
     def __hash__(self):
         return hash(
-            (self.chemical_system, tuple(sorted(self.coefficients)))
-        )  # not checking here for reactions that are multiples (too expensive)
+            (self.chemical_system, frozenset(self.reactants), frozenset(self.products))
+        )  # coefficients are compared with a tolerance, so they can not be hashed
 
     def __str__(self) -> str:
         return self._str_from_comp(self.coefficients, self.compositions)[0]
-- 
2.43.0


From 7a43422a66ec0d10f060b5cb3e4324f6d3559dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 11/63] fix: equal reactions have equal hashes
 (reactions/computed.py)

---
 src/rxn_network/reactions/computed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/computed.py b/src/rxn_network/reactions/computed.py
index c5d27a0..0c45ed5 100644
--- a/src/rxn_network/reactions/computed.py
+++ b/src/rxn_network/reactions/computed.py
@@ -227,5 +227,5 @@ class ComputedReaction(BasicReaction):
     def __hash__(self):
         """Must be redefined due to overriding __eq__."""
         return hash(
-            (self.chemical_system, tuple(sorted(self.coefficients)))
-        )  # not checking here for reactions that are multiples (too expensive)
+            (self.chemical_system, frozenset(self.reactants), frozenset(self.products))
+        )  # coefficients are compared with a tolerance, so they can not be hashed
-- 
2.43.0


From 36f4ec7edcff61deb92f547be895ce05200e2658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 12/63] fix: find reactions by product for every matching
 entry, including the first one

---
 src/rxn_network/reactions/reaction_set.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index a8ef34e..8ddc9cf 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -375,19 +375,15 @@ class ReactionSet(MSONable):
         """
         product = Composition(product).reduced_formula
 
-        product_index = None
-        for idx, e in enumerate(self.entries):
-            if e.composition.reduced_formula == product:
-                product_index = idx
-                break
+        product_indices = [idx for idx, e in enumerate(self.entries) if e.composition.reduced_formula == product]
 
-        if not product_index:
+        if not product_indices and not return_set:
             return []
 
         idxs = {}  # type: ignore
         for size, indices in self.indices.items():
             idxs[size] = []
-            contains_product = np.isin(indices, product_index).any(axis=1)
+            contains_product = np.isin(indices, product_indices).any(axis=1)
 
             for idx, coeffs, indices in zip(
                 np.argwhere(contains_product).flatten(),
@@ -395,7 +391,7 @@ class ReactionSet(MSONable):
                 self.indices[size][contains_product], strict=False,
             ):
                 p_indices = {i for c, i in zip(coeffs, indices, strict=False) if c > -1e-12}
-                if product_index in p_indices:
+                if not p_indices.isdisjoint(product_indices):
                     idxs[size].append(idx)
 
         if return_set:
-- 
2.43.0


From 387b3b46aa5d846cc7cdee90d5666fe45c4299e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 13/63] fix: return an empty reaction set when no entry matches
 the reactants

---
 src/rxn_network/reactions/reaction_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 8ddc9cf..ecbcf47 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -343,7 +343,7 @@ class ReactionSet(MSONable):
             {idx for idx, e in enumerate(self.entries) if e.composition.reduced_formula in reactants}
         )
 
-        if not reactant_indices:
+        if not reactant_indices and not return_set:
             return []
 
         idxs = {}  # type: ignore
-- 
2.43.0


From bdd9dabaf173bda11ef39007559a2abccff57b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 14/63] fix: keep the reactions of a ReactionSet built without
 data

---
 src/rxn_network/reactions/reaction_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index ecbcf47..d5df3c8 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -66,7 +66,7 @@ class ReactionSet(MSONable):
         self.open_elem = open_elem
         self.chempot = chempot
         if all_data is None:
-            self.all_data = {int(i): np.array([]) for i in self.indices}
+            self.all_data = {int(i): np.array([{} for _ in idxs]) for i, idxs in self.indices.items()}
         else:
             self.all_data = all_data
 
-- 
2.43.0


From 403636ae571abc5a7c04ab04c656d21f7fe697f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 15/63] fix: filter duplicate reactions on a single CPU

---
 src/rxn_network/reactions/reaction_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index d5df3c8..27e6ded 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -421,7 +421,7 @@ class ReactionSet(MSONable):
         if parallelize:
             if not ray.is_initialized():
                 initialize_ray()
-            num_cpus = int(ray.cluster_resources()["CPU"]) - 1
+            num_cpus = max(int(ray.cluster_resources()["CPU"]) - 1, 1)
             chunk_refs = []
 
         ensure_idxs = {size: [] for size in self.indices}  # type: ignore
-- 
2.43.0


From 535b53a7b4166247e8918b83f7a08a38efbfa885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 16/63] fix: do not merge polymorphs when changing the
 temperature of a ReactionSet

---
 src/rxn_network/reactions/reaction_set.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 27e6ded..150972c 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -536,7 +536,7 @@ class ReactionSet(MSONable):
             The new ReactionSet containing the recalculated reactions.
         """
         new_rxns = []
-        entries = {e.composition: e.get_new_temperature(new_temp) for e in self.entries}
+        entries = self._get_entries_at_temperature(new_temp)
         for rxn in tqdm(list(self.get_rxns())):
             new_rxns.append(rxn.get_new_temperature(new_temp, entries))
 
@@ -558,13 +558,20 @@ class ReactionSet(MSONable):
         result = {}
         for t in tqdm(temp_list, desc="Computing reaction energies..."):
             new_rxns = []
-            entries = {e.composition: e.get_new_temperature(t) for e in self.entries}
+            entries = self._get_entries_at_temperature(t)
             for rxn in all_rxns:
                 new_rxns.append(rxn.get_new_temperature(t, entries))
 
             result[t] = ReactionSet.from_rxns(new_rxns, open_elem=self.open_elem, chempot=self.chempot)
         return result
 
+    def _get_entries_at_temperature(self, temp: float) -> dict[Composition, ComputedEntry] | None:
+        """Return a map of compositions to entries at a new temperature, or None if entries
+        (e.g., polymorphs) can not be told apart by their composition.
+        """
+        entries = {e.composition: e.get_new_temperature(temp) for e in self.entries}
+        return entries if len(entries) == len(self.entries) else None
+
     def _get_rxns_by_indices(self, idxs) -> Iterable[ComputedReaction | OpenComputedReaction]:
         """Return a list of reactions with the given indices."""
         for size, idx_arr in idxs.items():
-- 
2.43.0


From 3dd5c0462c1956d2e56f9ab39a7b44adeb988c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 17/63] fix: do not mix up entries without an ID in
 ReactionSet.from_rxns

---
 src/rxn_network/reactions/reaction_set.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 150972c..7c34164 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -128,10 +128,7 @@ class ReactionSet(MSONable):
         # need to index by unique ID in case mixing different temperatures
         all_entry_indices = {}
         for idx, entry in enumerate(entries):
-            if hasattr(entry, "unique_id"):
-                all_entry_indices[entry.unique_id] = idx
-            else:
-                all_entry_indices[entry.entry_id] = idx
+            all_entry_indices[cls._get_entry_id(entry)] = idx
 
         # group by reaction size to ensure rectangular matrices
         indices, coeffs, data = {}, {}, {}  # type: ignore
@@ -139,12 +136,7 @@ class ReactionSet(MSONable):
         for rxn in rxns:
             size = len(rxn.entries)
 
-            rxn_indices = []
-            for e in rxn.entries:
-                if hasattr(e, "unique_id"):
-                    rxn_indices.append(all_entry_indices[e.unique_id])
-                else:
-                    rxn_indices.append(all_entry_indices[e.entry_id])
+            rxn_indices = [all_entry_indices[cls._get_entry_id(e)] for e in rxn.entries]
 
             if size not in indices:
                 indices[size] = []
@@ -639,6 +631,13 @@ class ReactionSet(MSONable):
         """
         return f"{entry.composition.reduced_formula}_{round(entry.energy_per_atom, 4)}"
 
+    @staticmethod
+    def _get_entry_id(entry: ComputedEntry) -> Any:
+        """Get a unique identifier for an entry; entries without any ID identify themselves."""
+        if hasattr(entry, "unique_id"):
+            return entry.unique_id
+        return entry if entry.entry_id is None else entry.entry_id
+
     @staticmethod
     def _get_unique_entries(rxns: Collection[ComputedReaction]) -> set[ComputedEntry]:
         """Return only unique entries from reactions."""
-- 
2.43.0


From b718a38470dd1fc7c4785f68555d2efe1d3da095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:48 +0000
Subject: [PATCH 18/63] fix: restore precursors and target of a network and
 keep the input dict intact

---
 src/rxn_network/network/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rxn_network/network/base.py b/src/rxn_network/network/base.py
index 75f8b4d..b26fbc3 100644
--- a/src/rxn_network/network/base.py
+++ b/src/rxn_network/network/base.py
@@ -75,12 +75,13 @@ class Network(MSONable, metaclass=ABCMeta):
         """Instantiate object from MSONable dict. See monty package for more
         information.
         """
-        precursors = d.pop("precursors", None)
-        target = d.pop("target", None)
+        d = dict(d)
+        precursors = MontyDecoder().process_decoded(d.pop("precursors", None))
+        target = MontyDecoder().process_decoded(d.pop("target", None))
         graph = d.pop("graph", None)
 
         network = super().from_dict(d)
-        network._precursors = precursors  # pylint: disable=protected-access
+        network._precursors = set(precursors) if precursors else None  # pylint: disable=protected-access
         network._target = target  # pylint: disable=protected-access
         network._g = MontyDecoder().process_decoded(  # pylint: disable=protected-access
             graph
-- 
2.43.0


From 22563e8457597a8b3489e6bbbbf49b33b7b67f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:48 +0000
Subject: [PATCH 19/63] fix: allow serialization of a network that is not built
 yet

---
 src/rxn_network/network/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/network/base.py b/src/rxn_network/network/base.py
index b26fbc3..03ad1d8 100644
--- a/src/rxn_network/network/base.py
+++ b/src/rxn_network/network/base.py
@@ -67,7 +67,7 @@ class Network(MSONable, metaclass=ABCMeta):
         d = super().as_dict()
         d["precursors"] = list(self.precursors) if self.precursors else None
         d["target"] = self.target
-        d["graph"] = self.graph.as_dict()
+        d["graph"] = self.graph.as_dict() if self.graph is not None else None
         return d
 
     @classmethod
-- 
2.43.0


From 114d10c5c37db64e0a1a3bbd00e2f545c7ca1d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:48 +0000
Subject: [PATCH 20/63] fix: forget precursors and target when the graph is
 rebuilt

---
 src/rxn_network/network/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index a4e7ffa..ecfdd43 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -85,6 +85,8 @@ class ReactionNetwork(Network):
         logger.info(f"Built graph with {g.num_nodes()} nodes and {g.num_edges()} edges")
 
         self._g = g  # type: ignore
+        self._precursors = None
+        self._target = None
 
     def find_pathways(self, targets: list[Entry | str], k: int = 15) -> list[BasicPathway]:
         """Find the k-shortest paths to a provided list of one or more targets.
-- 
2.43.0


From 26670656440ae27049c397713238710b91f5c38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:48 +0000
Subject: [PATCH 21/63] fix: remove loopback edges of the previous precursors

---
 src/rxn_network/network/network.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index ecfdd43..2867664 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -149,6 +149,13 @@ class ReactionNetwork(Network):
                     break
             else:
                 raise ValueError("Old precursors node not found in graph!")
+            for source, sink, edge in g.weighted_edge_list():  # remove loopbacks relying on old precursors
+                if (
+                    isinstance(edge, str)
+                    and edge == "loopback_edge"
+                    and g.get_node_data(source).entries != g.get_node_data(sink).entries
+                ):
+                    g.remove_edge(source, sink)
 
         precursors_node = g.add_node(precursors_entry)
 
@@ -164,7 +171,7 @@ class ReactionNetwork(Network):
                 for node2 in g.node_indices():
                     entry2 = g.get_node_data(node2)
                     if entry2.description.value == NetworkEntryType.Reactants.value:
-                        if precursors.issuperset(entry2.entries):
+                        if precursors.issuperset(entry2.entries) or entry.entries == entry2.entries:
                             continue
                         if precursors.union(entry.entries).issuperset(entry2.entries):
                             edges_to_add.append((node, node2, "loopback_edge"))
-- 
2.43.0


From 2eb5fdf325a6ef4a8017d8e808ffc729184b3929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:48 +0000
Subject: [PATCH 22/63] fix: NetworkEntry.dim is the number of elements

---
 src/rxn_network/network/entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/network/entry.py b/src/rxn_network/network/entry.py
index f42924b..6c26b53 100644
--- a/src/rxn_network/network/entry.py
+++ b/src/rxn_network/network/entry.py
@@ -41,7 +41,7 @@ class NetworkEntry(MSONable):
         self._entries = set(entries)
         self._elements = sorted({elem for entry in entries for elem in entry.composition.elements})
         self._chemsys = "-".join([str(e) for e in self.elements])
-        self._dim = len(self.chemsys)
+        self._dim = len(self.elements)
         self._description = description
 
     @property
-- 
2.43.0


From 201948d687cb46a174988d85197e0bcef2a2c4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 23/63] fix: use the cheapest of several reactions connecting
 the same phases in a path

---
 src/rxn_network/network/network.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index 2867664..df7d22e 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -262,7 +262,7 @@ class ReactionNetwork(Network):
 
         for step, node in enumerate(path):
             if g.get_node_data(node).description.value == NetworkEntryType.Products.value:
-                e = g.get_edge_data(path[step - 1], node)
+                e = get_cheapest_edge(g, path[step - 1], node, cf)
 
                 rxns.append(e)
                 costs.append(get_edge_weight(e, cf))
@@ -353,6 +353,18 @@ def get_edge_weight(edge_obj: object, cf: CostFunction):
     raise ValueError("Unknown edge type")
 
 
+def get_cheapest_edge(g: rx.PyDiGraph, source: int, sink: int, cf: CostFunction):
+    """Returns the edge of lowest weight among all edges connecting two nodes.
+
+    Args:
+        g: the rustworkx graph object.
+        source: index of the source node
+        sink: index of the sink node
+        cf: Cost function for evaluating edge weights
+    """
+    return min(g.get_all_edge_data(source, sink), key=lambda e: get_edge_weight(e, cf))
+
+
 def yens_ksp(
     g: rx.PyGraph,
     cf: CostFunction,
@@ -384,7 +396,7 @@ def yens_ksp(
         """Calculates path cost given a list of nodes."""
         cost = 0
         for j in range(len(nodes) - 1):
-            cost += get_edge_weight(g.get_edge_data(nodes[j], nodes[j + 1]), cf)
+            cost += get_edge_weight(get_cheapest_edge(g, nodes[j], nodes[j + 1], cf), cf)
         return cost
 
     def get_edge_weight_with_cf(edge_obj):
-- 
2.43.0


From 7e9bb331326008ba7842a3f70cde26e3819b7d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 24/63] fix: find all loopless paths in Yen's algorithm

---
 src/rxn_network/network/network.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index df7d22e..50e790d 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -428,19 +428,20 @@ def yens_ksp(
 
         for i in range(len(prev_path) - 1):
             spur_node = prev_path[i]
-            root_path = prev_path[:i]
+            root_path = prev_path[: i + 1]
 
-            removed_edges = []
+            edges_to_remove = {
+                (path[i], path[i + 1]) for path in a if len(path) - 1 > i and root_path == path[: i + 1]
+            }
+            for node in root_path[:-1]:  # paths must be loopless
+                edges_to_remove.update((source, node) for source in g.predecessor_indices(node))
 
-            for path in a:
-                if len(path) - 1 > i and root_path == path[:i]:
-                    try:
-                        e = g.get_edge_data(path[i], path[i + 1])
-                    except rx.NoEdgeBetweenNodes:
-                        continue
+            removed_edges = []
 
-                    g.remove_edge(path[i], path[i + 1])
-                    removed_edges.append((path[i], path[i + 1], e))
+            for source, sink in edges_to_remove:
+                for e in g.get_all_edge_data(source, sink):
+                    g.remove_edge(source, sink)
+                    removed_edges.append((source, sink, e))
 
             spur_path = rx.dijkstra_shortest_paths(  # type: ignore
                 g, spur_node, target_node, weight_fn=get_edge_weight_with_cf
@@ -449,7 +450,7 @@ def yens_ksp(
             g.add_edges_from(removed_edges)
 
             if spur_path:
-                total_path = list(root_path) + list(spur_path[target_node])
+                total_path = list(root_path[:-1]) + list(spur_path[target_node])
                 total_path_cost = path_cost(total_path)
                 b.put((total_path_cost, total_path))
 
-- 
2.43.0


From a21ee0d0a89bedd9c6b1d0652aa0bc8a145f8747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 25/63] fix: get_comp_matrix uses the compositions of each
 reaction

---
 src/rxn_network/pathways/balanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/balanced.py b/src/rxn_network/pathways/balanced.py
index bfe64d4..3220128 100644
--- a/src/rxn_network/pathways/balanced.py
+++ b/src/rxn_network/pathways/balanced.py
@@ -49,7 +49,7 @@ class BalancedPathway(BasicPathway):
         """
         return np.array(
             [
-                [rxn.get_coeff(comp) if comp in rxn.all_comp else 0 for comp in self.compositions]
+                [rxn.get_coeff(comp) if comp in rxn.compositions else 0 for comp in self.compositions]
                 for rxn in self.reactions
             ]
         )
-- 
2.43.0


From 8698d659c3b4247d9544a773f86765c85a35e7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 26/63] fix: phases available from other reactions do not make
 reactions interdependent

---
 src/rxn_network/pathways/balanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/balanced.py b/src/rxn_network/pathways/balanced.py
index 3220128..60143d0 100644
--- a/src/rxn_network/pathways/balanced.py
+++ b/src/rxn_network/pathways/balanced.py
@@ -100,7 +100,7 @@ class BalancedPathway(BasicPathway):
                     if i == j:
                         continue
                     overlapping_phases = unique_reactants[i] & unique_products[j]
-                    if overlapping_phases and (overlapping_phases not in other_comp):
+                    if overlapping_phases - other_comp:
                         overlap[i] = True
 
             if all(overlap):
-- 
2.43.0


From 31b9e1c80bc75cf68f57d6bef96a6e01b227c47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 27/63] fix: pathways of different length are not equal

---
 src/rxn_network/pathways/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/basic.py b/src/rxn_network/pathways/basic.py
index 42ecf05..2930e8c 100644
--- a/src/rxn_network/pathways/basic.py
+++ b/src/rxn_network/pathways/basic.py
@@ -54,7 +54,9 @@ class BasicPathway(Pathway):
 
     def __eq__(self, other) -> bool:
         if isinstance(other, self.__class__):
-            return all(other_rxn == rxn for other_rxn, rxn in zip(other.reactions, self.reactions, strict=False))
+            return len(other.reactions) == len(self.reactions) and all(
+                other_rxn == rxn for other_rxn, rxn in zip(other.reactions, self.reactions, strict=False)
+            )
 
         return False
 
-- 
2.43.0


From 6e1650b58d0a09744700c1dd1cd3e358c98345c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 28/63] fix: equality and hash of balanced pathways agree on
 coefficients

---
 src/rxn_network/pathways/balanced.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/pathways/balanced.py b/src/rxn_network/pathways/balanced.py
index 60143d0..b3fa315 100644
--- a/src/rxn_network/pathways/balanced.py
+++ b/src/rxn_network/pathways/balanced.py
@@ -130,12 +130,12 @@ class BalancedPathway(BasicPathway):
 
     def __eq__(self, other) -> bool:
         if super().__eq__(other):
-            return np.allclose(self.costs, other.costs)
+            return np.allclose(self.coefficients, other.coefficients) and np.allclose(self.costs, other.costs)
 
         return False
 
     def __hash__(self):
-        return hash((tuple(self.reactions), tuple(self.coefficients)))
+        return hash(tuple(self.reactions))
 
     def __repr__(self) -> str:
         path_info = ""
-- 
2.43.0


From ae9d11410d3fb6dec75c8befc57e3dd8ad188852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 29/63] fix: keep the balanced flag of pathways in a PathwaySet

---
 src/rxn_network/pathways/pathway_set.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/rxn_network/pathways/pathway_set.py b/src/rxn_network/pathways/pathway_set.py
index d4e87d6..075518b 100644
--- a/src/rxn_network/pathways/pathway_set.py
+++ b/src/rxn_network/pathways/pathway_set.py
@@ -34,6 +34,7 @@ class PathwaySet(MSONable):
         indices: np.ndarray | list[list[int]],
         coefficients: np.ndarray | list[list[float] | None],
         costs: np.ndarray | list[list[float]],
+        balanced: list[bool] | None = None,
     ):
         """
         Args:
@@ -43,11 +44,13 @@ class PathwaySet(MSONable):
             coefficients: An array or list of coefficients representing the
             multiplicities (i.e., how much of) each reaction in the pathway.
             costs: An array or list of costs for each pathway.
+            balanced: Optional list of whether each pathway is balanced.
         """
         self.reaction_set = reaction_set
         self.indices = indices
         self.coefficients = coefficients
         self.costs = costs
+        self.balanced = balanced
 
     @cached_property
     def paths(self) -> list[Pathway]:
@@ -64,14 +67,17 @@ class PathwaySet(MSONable):
 
         rxns = list(self.reaction_set.get_rxns())
 
-        for indices, coefficients, costs in zip(
+        for indices, coefficients, costs, balanced in zip(
             self.indices,
             self.coefficients,
-            self.costs, strict=False,
+            self.costs,
+            self.balanced or [False] * len(self.indices), strict=False,
         ):
             reactions = [rxns[i] for i in indices]
             if coefficients is not None:
-                path = BalancedPathway(reactions=reactions, coefficients=coefficients, costs=costs)
+                path = BalancedPathway(
+                    reactions=reactions, coefficients=coefficients, costs=costs, balanced=balanced
+                )
 
             else:
                 path = BasicPathway(reactions=reactions, costs=costs)
@@ -105,6 +111,7 @@ class PathwaySet(MSONable):
             indices=indices,
             coefficients=coefficients,
             costs=costs,
+            balanced=[getattr(path, "balanced", False) for path in paths],
         )
 
     @staticmethod
-- 
2.43.0


From 5006437d6588dc487b04253a6e16c59381658098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 30/63] fix: use the intermediate reactions of the grand
 potential enumerator

---
 src/rxn_network/pathways/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 4fae0d4..5d38aab 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -391,7 +391,7 @@ class PathwaySolver(Solver):
                     mu=self.chempot,
                     targets=target_formulas,
                 )
-                rxn_set.add_rxn_set(mgpe.enumerate(intermediates))
+                rxn_set = rxn_set.add_rxn_set(mgpe.enumerate(intermediates))
 
         rxns = list(filter(lambda x: x.energy_per_atom < energy_cutoff, rxn_set))
         rxns = [r for r in rxns if all(e in intermediates for e in r.entries)]
-- 
2.43.0


From fe58aa6748be67d6ff038dcf2c3047168cc63d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 31/63] fix: compare reduced compositions when filtering
 interdependent pathways

---
 src/rxn_network/pathways/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 5d38aab..502d9dd 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -327,7 +327,7 @@ class PathwaySolver(Solver):
 
         filtered_paths = []
         if filter_interdependent:
-            precursor_comps = [p.composition for p in precursors]
+            precursor_comps = [p.composition.reduced_composition for p in precursors]
             for p in paths:
                 interdependent = p.contains_interdependent_rxns(precursor_comps)
                 if not interdependent:
-- 
2.43.0


From 2a803b3c154c0427df84aee0935a76f658d2e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 32/63] fix: solve pathways on a single CPU

---
 src/rxn_network/pathways/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 502d9dd..918ef88 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -206,7 +206,7 @@ class PathwaySolver(Solver):
 
         num_rxns = len(cleaned_reactions)
         num_cpus = ray.cluster_resources()["CPU"]
-        batch_size = self.batch_size or num_cpus - 1
+        batch_size = self.batch_size or max(num_cpus - 1, 1)
 
         net_coeff_filter = np.argwhere(net_rxn_vector != 0).flatten()
         net_coeff_filter = ray.put(net_coeff_filter)
-- 
2.43.0


From d4d448cc4cbc6b231aa3316b91a486eb95c9f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 33/63] fix: return no pathways instead of failing when there
 are too few reactions

---
 src/rxn_network/pathways/solver.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 918ef88..7f88dfa 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -198,9 +198,9 @@ class PathwaySolver(Solver):
                     costs.append(c)
 
         clean_r_set = ReactionSet.from_rxns(reactions, filter_duplicates=True)
-        cleaned_reactions, cleaned_costs = zip(
-            *[(r, c) for r, c in zip(reactions, costs, strict=False) if r in clean_r_set and r != net_rxn], strict=False
-        )
+        cleaned = [(r, c) for r, c in zip(reactions, costs, strict=False) if r in clean_r_set and r != net_rxn]
+        cleaned_reactions = [r for r, _ in cleaned]
+        cleaned_costs = [c for _, c in cleaned]
 
         net_rxn_vector = net_rxn.get_entry_idx_vector(num_entries)
 
@@ -232,6 +232,10 @@ class PathwaySolver(Solver):
                     pbar.update(1)
                     comp_matrices[n].append(comp_matrices_ref)
 
+                if not comp_matrices[n]:  # fewer than n reactions
+                    del comp_matrices[n]
+                    continue
+
                 comp_matrices[n] = np.concatenate(comp_matrices[n])
 
                 if not comp_matrices[n].any():  # type: ignore
@@ -291,9 +295,8 @@ class PathwaySolver(Solver):
         ):
             c_m_mats.append(c_m_mats_ref)  # noqa: PERF402
 
-        c_mats, m_mats = zip(*c_m_mats, strict=False)
-        c_mats = [mat for mats in c_mats for mat in mats if mat is not None]  # type: ignore
-        m_mats = [mat for mats in m_mats for mat in mats if mat is not None]  # type: ignore
+        c_mats = [mat for mats, _ in c_m_mats for mat in mats if mat is not None]  # type: ignore
+        m_mats = [mat for _, mats in c_m_mats for mat in mats if mat is not None]  # type: ignore
 
         paths = []
         for c_mat, m_mat in zip(c_mats, m_mats, strict=False):
-- 
2.43.0


From 9f61103e6d86854c917e6a3cdd1c883014f4ca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 34/63] fix: every reaction of a balanced pathway has a cost

---
 src/rxn_network/pathways/solver.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 7f88dfa..80f43e4 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -318,12 +318,11 @@ class PathwaySolver(Solver):
                 else:
                     rxn = ComputedReaction(entries=ents, coefficients=coeffs)
 
-                try:
-                    path_rxns.append(rxn)
+                path_rxns.append(rxn)
+                if rxn in cleaned_reactions:
                     path_costs.append(cleaned_costs[cleaned_reactions.index(rxn)])
-                except Exception as e:
-                    print(e)
-                    continue
+                else:
+                    path_costs.append(self.cost_function.evaluate(rxn))
 
             p = BalancedPathway(path_rxns, m_mat.flatten(), path_costs, balanced=True)
             paths.append(p)
-- 
2.43.0


From a5604135365673b679875fc7c7abb84dae14f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 35/63] fix: accept a function as mu_func of
 ChempotDistanceCalculator

---
 src/rxn_network/costs/calculators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/costs/calculators.py b/src/rxn_network/costs/calculators.py
index bfa70ac..86ffd7e 100644
--- a/src/rxn_network/costs/calculators.py
+++ b/src/rxn_network/costs/calculators.py
@@ -59,6 +59,8 @@ class ChempotDistanceCalculator(Calculator):
             self.mu_func = sum  # type: ignore
         elif isinstance(mu_func, str):
             raise ValueError("Provided mu_func name is not a known function; please provide the function directly.")
+        else:
+            self.mu_func = mu_func
 
         self._open_elems = set()
         if cpd.entries[0].__class__.__name__ == "GrandPotPDEntry":
-- 
2.43.0


From daf7d30324bba2eacf236c0a2cd9a55eda0d1f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:17 +0000
Subject: [PATCH 36/63] fix: only update the temperature of
 temperature-dependent adjustments of reference entries

---
 src/rxn_network/entries/experimental.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index 919e021..3817dec 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -80,7 +80,8 @@ class ExperimentalReferenceEntry(ComputedEntry):
         """
         new_entry_dict = self.as_dict()
         for adj in new_entry_dict["energy_adjustments"]:
-            adj["temp"] = new_temperature
+            if "temp" in adj:  # only some adjustments are temperature-dependent
+                adj["temp"] = new_temperature
         new_entry_dict["temperature"] = new_temperature
 
         return self.from_dict(new_entry_dict)
-- 
2.43.0


From 994fe7e0b849e0d0c48615cef39481d312e27aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:17 +0000
Subject: [PATCH 37/63] fix: update temperature-dependent adjustments when
 re-heating a GibbsComputedEntry

---
 src/rxn_network/entries/gibbs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rxn_network/entries/gibbs.py b/src/rxn_network/entries/gibbs.py
index aaecfa8..47b7add 100644
--- a/src/rxn_network/entries/gibbs.py
+++ b/src/rxn_network/entries/gibbs.py
@@ -130,6 +130,9 @@ class GibbsComputedEntry(ComputedEntry):
             temperature.
         """
         new_entry_dict = self.as_dict()
+        for adj in new_entry_dict["energy_adjustments"]:
+            if "temp" in adj:  # only some adjustments are temperature-dependent
+                adj["temp"] = new_temperature
         new_entry_dict["temperature"] = new_temperature
 
         return self.from_dict(new_entry_dict)
-- 
2.43.0


From dc63833762356d06ec71299b35ef125dc8751f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:17 +0000
Subject: [PATCH 38/63] fix: accept float temperatures that are a multiple of
 100 K in GibbsComputedEntry

---
 src/rxn_network/entries/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/gibbs.py b/src/rxn_network/entries/gibbs.py
index 47b7add..927acb8 100644
--- a/src/rxn_network/entries/gibbs.py
+++ b/src/rxn_network/entries/gibbs.py
@@ -211,7 +211,7 @@ class GibbsComputedEntry(ComputedEntry):
                 )
                 sum_g_i += amt * g_interp(temperature)
         else:
-            sum_g_i = sum(amt * G_ELEMS[str(temperature)][elem] for elem, amt in elems.items())
+            sum_g_i = sum(amt * G_ELEMS[str(int(temperature))][elem] for elem, amt in elems.items())
 
         return sum_g_i
 
-- 
2.43.0


From 1a163f94b341cbfc2917af9d9380d506a5092db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:17 +0000
Subject: [PATCH 39/63] fix: scale tabulated energies of reference entries to
 non-reduced compositions

---
 src/rxn_network/entries/experimental.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index 3817dec..7f56960 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -56,6 +56,7 @@ class ExperimentalReferenceEntry(ComputedEntry):
         self._temperature = temperature
 
         energy = self._get_energy(formula, temperature)
+        energy *= composition.get_reduced_formula_and_factor()[1]  # tabulated per formula unit
 
         super().__init__(
             composition,
-- 
2.43.0


From c525cf108407533e23e4d60b979acc937bb54338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:17 +0000
Subject: [PATCH 40/63] fix: make equal reference entries hash equally

---
 src/rxn_network/entries/experimental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index 7f56960..0a71dbb 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -215,6 +215,6 @@ class ExperimentalReferenceEntry(ComputedEntry):
 
     def __hash__(self) -> int:
         data_md5 = hashlib.md5(  # nosec
-            f"{self.__class__.__name__}{self.composition}_{self.temperature}".encode()
+            f"{self.__class__.__name__}{self.composition.reduced_formula}_{float(self.temperature)}".encode()
         ).hexdigest()
         return int(data_md5, 16)
-- 
2.43.0


From 5f5f95c28100388c17a774f16fcfe1702712774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:17 +0000
Subject: [PATCH 41/63] fix: keep the class and data of an InterpolatedEntry
 when copying it

---
 src/rxn_network/entries/interpolated.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rxn_network/entries/interpolated.py b/src/rxn_network/entries/interpolated.py
index c0d8362..3dd3f56 100644
--- a/src/rxn_network/entries/interpolated.py
+++ b/src/rxn_network/entries/interpolated.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from copy import deepcopy
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -94,6 +95,10 @@ class InterpolatedEntry(ComputedEntry):
         )
         return self.copy()
 
+    def copy(self) -> InterpolatedEntry:
+        """Returns a deepcopy of the InterpolatedEntry object."""
+        return deepcopy(self)
+
     @property
     def unique_id(self) -> str:
         """Returns a unique ID for the entry."""
-- 
2.43.0


From 6796b741e873df38a0967d18b2c58cd4bf8a07b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:17 +0000
Subject: [PATCH 42/63] fix: do not add computed entries for phases found in
 only one experimental database

---
 src/rxn_network/entries/entry_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index b452819..29c8d6d 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -426,7 +426,7 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
                 if new_entry:
                     new_entries.append(new_entry)
 
-            if new_entry:
+            if new_entries:
                 experimental_formulas.append(formula)
             else:
                 energy_adjustments = []
-- 
2.43.0


From 1cccc639e81959595591b39b5a7de36fe4fc0fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:17 +0000
Subject: [PATCH 43/63] fix: do not share data dictionaries between the entry
 sets built from the same entries

---
 src/rxn_network/entries/entry_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index 29c8d6d..20edca8 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -448,7 +448,7 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
                     temperature=temperature,
                     energy_adjustments=energy_adjustments,
                     parameters=entry.parameters,
-                    data=entry.data,
+                    data=dict(entry.data),
                     entry_id=entry.entry_id,
                 )
 
-- 
2.43.0


From e45d2c89e6dcdabc7746da3f37f9a64767e1d05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:17 +0000
Subject: [PATCH 44/63] fix: keep the options of entry sets built from more
 than nine elements

---
 src/rxn_network/entries/entry_set.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index 20edca8..327cfb9 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -552,7 +552,11 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
             )
             new_entries.update(gibbs_set)
 
-        return cls(list(new_entries))
+        return cls(
+            list(new_entries),
+            calculate_e_above_hulls=calculate_e_above_hulls,
+            minimize_obj_size=minimize_obj_size,
+        )
 
     @cached_property
     def entries_list(self) -> list[ComputedEntry]:
-- 
2.43.0


From 7afe88a7d678b3469045d966e9a623cee11f7bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:17 +0000
Subject: [PATCH 45/63] fix: do not add or remove entries of the diagram when
 calculating metastable domains

---
 src/rxn_network/thermo/chempot_diagram.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/rxn_network/thermo/chempot_diagram.py b/src/rxn_network/thermo/chempot_diagram.py
index 784fae5..e9b8a4a 100644
--- a/src/rxn_network/thermo/chempot_diagram.py
+++ b/src/rxn_network/thermo/chempot_diagram.py
@@ -201,18 +201,15 @@ class ChemicalPotentialDiagram(ChempotDiagram):
 
         orig_entry = self._entry_set.get_min_entry_by_formula(formula)
         new_entry = self._entry_set.get_stabilized_entry(orig_entry, tol=tol)
-        self._entry_set.add(new_entry)
-        cpd = ChemicalPotentialDiagram(self._entry_set, default_min_limit=-500)
+        cpd = ChemicalPotentialDiagram([*self._entry_set, new_entry], default_min_limit=-500)
 
         try:
             metastable_domain = cpd.domains[formula]
         except KeyError as exc:
             # sometimes if the entry is exactly on the hull it fails, so set force=True
             # and make bigger tolerance
-            self._entry_set.remove(new_entry)
             new_entry = self._entry_set.get_stabilized_entry(orig_entry, tol=1e-2, force=True)
-            self._entry_set.add(new_entry)
-            cpd = ChemicalPotentialDiagram(self._entry_set, default_min_limit=-500)
+            cpd = ChemicalPotentialDiagram([*self._entry_set, new_entry], default_min_limit=-500)
 
             try:
                 metastable_domain = cpd.domains[formula]
@@ -222,7 +219,6 @@ class ChemicalPotentialDiagram(ChempotDiagram):
                 ) from exc
 
         self._metastable_domains[formula] = metastable_domain
-        self._entry_set.remove(new_entry)
 
         return metastable_domain
 
-- 
2.43.0


From 1ec6e5e0593a69a3eab215bdd7d4e6af84ad8010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:50 +0000
Subject: [PATCH 46/63] fix: accept integer reaction coefficients

---
 src/rxn_network/reactions/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index f27b369..0ef6c52 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -56,7 +56,7 @@ class BasicReaction(Reaction):
                 phases may be shuffled or removed entirely).
         """
         self._compositions = [Composition(c) for c in compositions]
-        self._coefficients = np.array(coefficients)
+        self._coefficients = np.array(coefficients, dtype=float)
 
         self.reactant_coeffs = {
             comp: coeff for comp, coeff in zip(self._compositions, self._coefficients, strict=False) if coeff < 0
-- 
2.43.0


From b3fa2137e910063be73e7d3807d299e94780c3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:50 +0000
Subject: [PATCH 47/63] fix: reactions with permuted coefficients are not equal

---
 src/rxn_network/reactions/basic.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 0ef6c52..0ea021d 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -474,7 +474,17 @@ class BasicReaction(Reaction):
         if not set(self.reactants) == set(other.reactants):
             return False
 
-        return set(self.products) == set(other.products)
+        if not set(self.products) == set(other.products):
+            return False
+
+        return all(
+            np.isclose(coeff, other_coeffs[comp])
+            for coeffs, other_coeffs in (
+                (self.reactant_coeffs, other.reactant_coeffs),
+                (self.product_coeffs, other.product_coeffs),
+            )
+            for comp, coeff in coeffs.items()
+        )
 
     def __hash__(self):
         return hash(
-- 
2.43.0


From eede55182102a4aa23c5ab897054831d686bcec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:50 +0000
Subject: [PATCH 48/63] fix: comparing a reaction with another object returns
 False (reactions/basic.py)

---
 src/rxn_network/reactions/basic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 0ea021d..8088367 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -459,6 +459,9 @@ class BasicReaction(Reaction):
         if self is other:
             return True
 
+        if not isinstance(other, BasicReaction):
+            return False
+
         if not self.chemical_system == other.chemical_system:
             return False
 
-- 
2.43.0


From 0548872c15c00cf4aa76090896edcf67099be923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:50 +0000
Subject: [PATCH 49/63] fix: comparing a reaction with another object returns
 False (reactions/computed.py)

---
 src/rxn_network/reactions/computed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rxn_network/reactions/computed.py b/src/rxn_network/reactions/computed.py
index 0c45ed5..5438a65 100644
--- a/src/rxn_network/reactions/computed.py
+++ b/src/rxn_network/reactions/computed.py
@@ -215,6 +215,9 @@ class ComputedReaction(BasicReaction):
         return v
 
     def __eq__(self, other) -> bool:
+        if not isinstance(other, ComputedReaction):
+            return False
+
         is_equal = BasicReaction.__eq__(self, other)
 
         if is_equal:
-- 
2.43.0


From 481609cffcafa4ceee7460a4a1fc92ad666c88f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:24 +0000
Subject: [PATCH 50/63] fix: stabilize_entries lowers the energy of an entry to
 the hull instead of failing

---
 src/rxn_network/enumerators/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/enumerators/utils.py b/src/rxn_network/enumerators/utils.py
index d5a8451..913e236 100644
--- a/src/rxn_network/enumerators/utils.py
+++ b/src/rxn_network/enumerators/utils.py
@@ -159,8 +159,8 @@ def stabilize_entries(pd: PhaseDiagram, entries_to_adjust: Iterable[Entry], tol:
     new_entries = []
     for _, entry in zip(indices, entries_to_adjust, strict=False):
         e_above_hull = pd.get_e_above_hull(entry)
-        entry_dict = entry.to_dict()
-        entry_dict["energy"] = entry.uncorrected_energy + (e_above_hull * entry.composition.num_atoms - tol)
+        entry_dict = entry.as_dict()
+        entry_dict["energy"] = entry.uncorrected_energy - (e_above_hull * entry.composition.num_atoms + tol)
         new_entry = ComputedEntry.from_dict(entry_dict)
         new_entries.append(new_entry)
 
-- 
2.43.0


From 47bf3e3dec4ceca2a103ec0d6a8429e290d7f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:29 +0000
Subject: [PATCH 51/63] fix: a reaction at the end of the mixing line has a
 single (not 9e10) decomposition paths

---
 src/rxn_network/reactions/hull.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index 3aef106..328c43f 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -424,6 +424,7 @@ class InterfaceReactionHull(MSONable):
             24466267020,
             91482563640,
         ]
+        num = max(num, 0)
         return counts[num] if num <= 22 else self._count_recursive(num)[0]
 
     @lru_cache(maxsize=128)  # noqa: B019
-- 
2.43.0


From c4752eb22115a61a0b823dd7349d1be1ce73f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:29 +0000
Subject: [PATCH 52/63] fix: decomposition area of a reaction at the end of the
 mixing line is zero instead of failing

---
 src/rxn_network/reactions/hull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index 328c43f..d7ff779 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -345,7 +345,7 @@ class InterfaceReactionHull(MSONable):
             The area of reaction decomposition between the two points.
         """
         coords = self.get_coords_in_range(x1, x2)
-        if len(coords) == 2:
+        if len(coords) <= 2:
             return 0
 
         return ConvexHull(coords, qhull_options="QJ i").volume  # this is how area is defined in scipy
-- 
2.43.0


From 987c7adfbf504bf5a5dd999697272f7f2a8f2410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:29 +0000
Subject: [PATCH 53/63] fix: recursive decomposition keeps the reactant
 reference for the other decompositions

---
 src/rxn_network/reactions/hull.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index d7ff779..1438f9d 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -475,20 +475,21 @@ class InterfaceReactionHull(MSONable):
         val = 0
         total = 0
         for c in coords:
+            use_min, use_max = use_x_min_ref, use_x_max_ref
             if c[0] == 0.0 and not np.isclose(c[1], 0.0):
-                use_x_min_ref = False
+                use_min = False
             elif c[0] == 1.0 and not np.isclose(c[1], 0.0):
-                use_x_max_ref = False
+                use_max = False
 
             height = self._calculate_altitude([x_min, y_min], c, [x_max, y_max])  # type: ignore
             (
                 left_decomp,
                 left_total,
-            ) = self.get_decomposition_energy_and_num_paths_recursive(x_min, c[0], use_x_min_ref, use_x_max_ref)
+            ) = self.get_decomposition_energy_and_num_paths_recursive(x_min, c[0], use_min, use_max)
             (
                 right_decomp,
                 right_total,
-            ) = self.get_decomposition_energy_and_num_paths_recursive(c[0], x_max, use_x_min_ref, use_x_max_ref)
+            ) = self.get_decomposition_energy_and_num_paths_recursive(c[0], x_max, use_min, use_max)
 
             val += height * (left_total * right_total) + left_decomp * right_total + right_decomp * left_total
             total += left_total * right_total
-- 
2.43.0


From 5ed55f62a80291be996c3f737bd359cb5db9e93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:29 +0000
Subject: [PATCH 54/63] fix: saving an interface hull does not add its endpoint
 reactions once more

---
 src/rxn_network/reactions/hull.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index 1438f9d..3cb619f 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -74,6 +74,14 @@ class InterfaceReactionHull(MSONable):
         self.hull = ConvexHull(self.coords)
         self.endpoint_reactions = endpoint_reactions
 
+    def as_dict(self) -> dict:
+        """Return the object as a dictionary (without the endpoint reactions, which are added on initialization)."""
+        d = super().as_dict()
+        d["reactions"] = [
+            r.as_dict() for r in self.reactions if not any(r is endpoint for endpoint in self.endpoint_reactions)
+        ]
+        return d
+
     def plot(self, y_max: float = 0.2) -> Figure:
         """Plot the reaction hull."""
         pts = self._get_scatter()
-- 
2.43.0


From fe6b280e652890cde22fd709b8ce98bb30843903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:53 +0000
Subject: [PATCH 55/63] fix: keep competing reactions that consume the open
 phase when calculating competition

---
 src/rxn_network/jobs/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index 093f27a..3ad9814 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -361,6 +361,8 @@ class CalculateCompetitionMaker(Maker):
         logger.info("Removing unnecessary reactions from total reactions to save memory...")
 
         all_target_reactants = {reactant.reduced_formula for r in target_rxns for reactant in r.reactants}
+        if self.open_formula:
+            all_target_reactants.add(self.open_formula)
         all_rxns = all_rxns.get_rxns_by_reactants(
             all_target_reactants,
             return_set=True,  # type: ignore
-- 
2.43.0


From cb4f85d8553a4cfb0793ca79e2c9990fb262ee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:53 +0000
Subject: [PATCH 56/63] fix: elements and chemical system of the enumeration
 document have a fixed order

---
 src/rxn_network/jobs/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index 3ad9814..5a4f5f0 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -239,7 +239,7 @@ class ReactionEnumerationMaker(Maker):
 
     def _get_metadata(self, enumerators: Iterable[Enumerator], entries: GibbsEntrySet):
         """Acquires common metadata provided to output document."""
-        chemsys = "-".join(entries.chemsys)
+        chemsys = "-".join(sorted(entries.chemsys))
         targets = {target for enumerator in enumerators for target in enumerator.targets}
 
         added_elements = None
-- 
2.43.0


From b04b72e81f6584e5ffd031271e201ddd65d85fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:23 +0000
Subject: [PATCH 57/63] fix: a DummyEntry saved to a dictionary can be loaded
 again

---
 src/rxn_network/network/entry.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rxn_network/network/entry.py b/src/rxn_network/network/entry.py
index 6c26b53..2346045 100644
--- a/src/rxn_network/network/entry.py
+++ b/src/rxn_network/network/entry.py
@@ -117,6 +117,11 @@ class DummyEntry(NetworkEntry):
         self._dim = 0
         self._description = NetworkEntryType.Dummy
 
+    @classmethod
+    def from_dict(cls, d: dict) -> DummyEntry:
+        """Load from MSONable dict."""
+        return cls()
+
     def __repr__(self) -> str:
         return "Dummy Node"
 
-- 
2.43.0


From 43ee39552a63432d9731bf9c559d4d50cdb52c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:38 +0000
Subject: [PATCH 58/63] fix: a failed save leaves the data of a Gibbs entry as
 it was

---
 src/rxn_network/entries/gibbs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/entries/gibbs.py b/src/rxn_network/entries/gibbs.py
index 927acb8..80a422e 100644
--- a/src/rxn_network/entries/gibbs.py
+++ b/src/rxn_network/entries/gibbs.py
@@ -301,8 +301,10 @@ class GibbsComputedEntry(ComputedEntry):
         # sanitized data as an argument.
         original_data = self.data
         self.data = self._sanitize_data(original_data)
-        result = super().as_dict()
-        self.data = original_data
+        try:
+            result = super().as_dict()
+        finally:
+            self.data = original_data
         result["volume_per_atom"] = self.volume_per_atom
         result["formation_energy_per_atom"] = self.formation_energy_per_atom
         result["temperature"] = self.temperature
-- 
2.43.0


From 98144d5e10ce1ee8db007f81fcb463752bcac215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:31 +0000
Subject: [PATCH 59/63] fix: maximise the first Pareto metric too

---
 src/rxn_network/costs/pareto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/costs/pareto.py b/src/rxn_network/costs/pareto.py
index 5dceded..c7987de 100644
--- a/src/rxn_network/costs/pareto.py
+++ b/src/rxn_network/costs/pareto.py
@@ -33,7 +33,7 @@ def get_pareto_front(
     pts = df.to_numpy()
 
     if maximize:
-        pts[:, 1:] = pts[:, 1:] * -1
+        pts = pts * -1
 
     return df_original[is_pareto_efficient(pts, return_mask=True)]
 
-- 
2.43.0


From 3f1226604b4479071e8b6035d980ecf45bc7d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:31 +0000
Subject: [PATCH 60/63] fix: energy cascade scaled non-reduced formulas by the
 atoms of the reduced one

---
 src/rxn_network/pathways/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/plotting.py b/src/rxn_network/pathways/plotting.py
index 91f4a4e..14e67c5 100644
--- a/src/rxn_network/pathways/plotting.py
+++ b/src/rxn_network/pathways/plotting.py
@@ -90,7 +90,7 @@ class PathwayPlotter(MSONable):
             all_energies[temp]["ground_state"] = ground_state_energy
 
             for f in formulas:
-                comp = Composition(f).reduced_composition
+                comp = Composition(f)
                 energy = (
                     pd.get_form_energy_per_atom(gibbs_entries.get_min_entry_by_formula(comp.formula)) * comp.num_atoms
                 )
-- 
2.43.0


From 32531f98cf4778dc263b85f6a334eb00d2cb004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:36 +0000
Subject: [PATCH 61/63] fix: get_entries does not extend the caller's
 property_data list

---
 src/rxn_network/entries/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/utils.py b/src/rxn_network/entries/utils.py
index aa5f374..2779590 100644
--- a/src/rxn_network/entries/utils.py
+++ b/src/rxn_network/entries/utils.py
@@ -272,7 +272,7 @@ def get_entries(
     props = ["final_energy", "unit_cell_formula", "task_id", *params]
     if sort_by_e_above_hull:
         if property_data and "e_above_hull" not in property_data:
-            property_data.append("e_above_hull")
+            property_data = [*property_data, "e_above_hull"]
         elif not property_data:
             property_data = ["e_above_hull"]
     if property_data:
-- 
2.43.0


From d7c0f59e658e69878c9f3ad3e5a53973440997ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:36 +0000
Subject: [PATCH 62/63] fix: GetEntrySetMaker does not change its own
 property_data when it makes a job

---
 src/rxn_network/jobs/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index 5a4f5f0..f6386ec 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -121,7 +121,7 @@ class GetEntrySetMaker(Maker):
             if property_data is None:
                 property_data = ["theoretical"]
             elif "theoretical" not in property_data:
-                property_data.append("theoretical")
+                property_data = [*property_data, "theoretical"]
 
             entries = get_all_entries_in_chemsys_from_entry_db(
                 entry_db,
-- 
2.43.0


From cfc3e0f06c4a3561dcb8fa1be2f8ecbb3f4a6692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:52 +0000
Subject: [PATCH 63/63] fix: plot_reaction_scatter does not change pymatgen's
 shared plotly layouts

---
 src/rxn_network/reactions/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/plotting.py b/src/rxn_network/reactions/plotting.py
index f14c22e..49f528b 100644
--- a/src/rxn_network/reactions/plotting.py
+++ b/src/rxn_network/reactions/plotting.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from copy import deepcopy
 from typing import TYPE_CHECKING
 
 import plotly.express as px
@@ -116,8 +117,8 @@ def plot_reaction_scatter(
         )
         fig.update_layout(layout_2d)
     else:
-        layout_3d = plotly_layouts["default_layout_3d"]
-        axis_layout = plotly_layouts["default_3d_axis_layout"].copy()
+        layout_3d = deepcopy(plotly_layouts["default_layout_3d"])
+        axis_layout = deepcopy(plotly_layouts["default_3d_axis_layout"])
         axis_layout["titlefont"]["size"] = 14
         for t in ["xaxis", "yaxis", "zaxis"]:
             layout_3d["scene"][t] = axis_layout
-- 
2.43.0

