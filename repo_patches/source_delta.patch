From fc454517525e0cd12002896755ab58d13855f0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:35 +0000
Subject: [PATCH 01/16] fix: divide by molecule sizes in the Hessian of the
 ideal gas entropy

---
 flory/entropy/ideal_gas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/entropy/ideal_gas.py b/flory/entropy/ideal_gas.py
index ef4e69c..9e11a20 100644
--- a/flory/entropy/ideal_gas.py
+++ b/flory/entropy/ideal_gas.py
@@ -175,7 +175,7 @@ class IdealGasEntropyBase(EntropyBase):
             : The full Hessian.
         """
         # manually generate the matrix sine we assume no prior knowledge for the dimension of `phis``
-        ans_diag = 1.0 / phis * self._sizes
+        ans_diag = 1.0 / (phis * self._sizes)
         shape = list(ans_diag.shape)
         shape.append(self.num_comp)
         ans = np.zeros(shape)
-- 
2.43.0


From c9561f0ef9e936f9b7bcacd54945db368e971e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:35 +0000
Subject: [PATCH 02/16] fix: report the absolute conjugate field error

---
 flory/mcmp/_finder_impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flory/mcmp/_finder_impl.py b/flory/mcmp/_finder_impl.py
index ee116e5..25eb842 100644
--- a/flory/mcmp/_finder_impl.py
+++ b/flory/mcmp/_finder_impl.py
@@ -400,7 +400,9 @@ def multicomponent_self_consistent_metastep(
         for itr_comp in range(num_feat):
             omega_temp[itr_comp] -= omegas[itr_comp]
             omega_temp[itr_comp] *= masks
-            max_abs_omega_diff = max(max_abs_omega_diff, omega_temp[itr_comp].max())
+            max_abs_omega_diff = max(
+                max_abs_omega_diff, np.abs(omega_temp[itr_comp]).max()
+            )
             omegas[itr_comp] += (
                 additional_factor * acceptance_omega * omega_temp[itr_comp]
             )
-- 
2.43.0


From 39a8edc654fffe7d074f93c92d8c8f9ef1a34529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:35 +0000
Subject: [PATCH 03/16] fix: create the logger of the block interaction before
 it is used

---
 flory/interaction/flory_huggins_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index e7b5dba..5284845 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -52,6 +52,7 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
                 The number of components in each feature. An integer indicates that this
                 value is the same for all features.
         """
+        self._logger = logging.getLogger(self.__class__.__name__)
         self.num_feat = num_feat
 
         num_comp_per_feat = convert_and_broadcast(num_comp_per_feat, (num_feat,))
@@ -68,7 +69,6 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
             num_comp=num_comp_per_feat.sum(),
             chis=make_square_blocks(chis_feat, num_comp_per_feat),
         )
-        self._logger = logging.getLogger(self.__class__.__name__)
 
     @property
     def num_comp_per_feat(self) -> np.ndarray:
-- 
2.43.0


From 94c84f22d0020ec8c610ee95c6f3fe997a61edac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:35 +0000
Subject: [PATCH 04/16] fix: let chis_feat of the block interaction be assigned

---
 flory/interaction/flory_huggins_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index 5284845..14f13ac 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -92,7 +92,7 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
     @chis_feat.setter
     def chis_feat(self, chis_feat_new: np.ndarray):
         chis_feat_new = convert_and_broadcast(
-            chis_feat_new, (self._num_feat, self._num_feat)
+            chis_feat_new, (self.num_feat, self.num_feat)
         )
         # ensure that the chi matrix is symmetric
         if not np.allclose(chis_feat_new, chis_feat_new.T):
-- 
2.43.0


From dfc02a325da02703de50d9ecdd58f9f2671d349b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:35 +0000
Subject: [PATCH 05/16] fix: store uniform chis as floats so that later random
 chis are not truncated

---
 flory/interaction/flory_huggins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins.py b/flory/interaction/flory_huggins.py
index 96a3a25..a8f1037 100644
--- a/flory/interaction/flory_huggins.py
+++ b/flory/interaction/flory_huggins.py
@@ -310,7 +310,7 @@ class FloryHugginsInteraction(FloryHugginsInteractionBase):
                 Whether the diagonal elements of the :math:`\chi_{ij}` matrix are set to
                 be zero.
         """
-        self._chis = np.full((self.num_comp, self.num_comp), chi)
+        self._chis = np.full((self.num_comp, self.num_comp), chi, float)
         if vanishing_diagonal:
             self._chis[np.diag_indices_from(self._chis)] = 0
 
-- 
2.43.0


From 5b6c3f82d0ab20107f4966b01d5021427e6f12d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:31 +0000
Subject: [PATCH 06/16] fix: compile canonical ensembles from a float copy of
 the mean fractions

---
 flory/ensemble/canonical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/ensemble/canonical.py b/flory/ensemble/canonical.py
index 6b18e41..44fed1d 100644
--- a/flory/ensemble/canonical.py
+++ b/flory/ensemble/canonical.py
@@ -114,4 +114,4 @@ class CanonicalEnsemble(EnsembleBase):
         Returns:
             : Instance of :class:`CanonicalEnsembleCompiled`.
         """
-        return CanonicalEnsembleCompiled(self._phi_means)
+        return CanonicalEnsembleCompiled(self._phi_means.astype(np.float64))
-- 
2.43.0


From fe512d4111e71d23f3b111b80ad0b8f45121c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:31 +0000
Subject: [PATCH 07/16] fix: compile grand canonical ensembles from a float
 copy of the activities

---
 flory/ensemble/grandcanonical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flory/ensemble/grandcanonical.py b/flory/ensemble/grandcanonical.py
index 6d9d62a..c31bc03 100644
--- a/flory/ensemble/grandcanonical.py
+++ b/flory/ensemble/grandcanonical.py
@@ -139,4 +139,6 @@ class GrandCanonicalEnsemble(EnsembleBase):
             : Instance of :class:`GrandCanonicalEnsembleCompiled`.
         """
 
-        return GrandCanonicalEnsembleCompiled(self._scaled_activity)
+        return GrandCanonicalEnsembleCompiled(
+            self._scaled_activity.astype(np.float64)
+        )
-- 
2.43.0


From 79252c71c43d4235c242ab803048451387959dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:31 +0000
Subject: [PATCH 08/16] fix: do not share the chi matrix with compiled block
 interactions

---
 flory/interaction/flory_huggins.py       | 2 +-
 flory/interaction/flory_huggins_block.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flory/interaction/flory_huggins.py b/flory/interaction/flory_huggins.py
index a8f1037..9e9191a 100644
--- a/flory/interaction/flory_huggins.py
+++ b/flory/interaction/flory_huggins.py
@@ -132,7 +132,7 @@ class FloryHugginsInteractionBase(InteractionBase):
         """
 
         return FloryHugginsInteractionCompiled(
-            self._chis, -self._chis.min() + additional_chis_shift
+            self._chis.copy(), -self._chis.min() + additional_chis_shift
         )
 
     def _energy_impl(self, phis: np.ndarray) -> np.ndarray:
diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index 14f13ac..ddd9182 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -124,5 +124,5 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
         """
 
         return FloryHugginsInteractionCompiled(
-            self._chis_feat, -self._chis_feat.min() + additional_chis_shift
+            self._chis_feat.copy(), -self._chis_feat.min() + additional_chis_shift
         )
-- 
2.43.0


From 14692be0b466870c4c1af6b6c5b4a89a74af4e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:31 +0000
Subject: [PATCH 09/16] fix: compile linear constraints from contiguous copies
 of their parameters

---
 flory/constraint/linear_global.py | 5 ++++-
 flory/constraint/linear_local.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/flory/constraint/linear_global.py b/flory/constraint/linear_global.py
index 5aa96ec..0223251 100644
--- a/flory/constraint/linear_global.py
+++ b/flory/constraint/linear_global.py
@@ -217,5 +217,8 @@ class LinearGlobalConstraint(ConstraintBase):
             : Instance of :class:`LinearGlobalConstraintCompiled`.
         """
         return LinearGlobalConstraintCompiled(
-            self._Cs, self._Ts, constraint_acceptance_ratio, constraint_elasticity
+            np.array(self._Cs, order="C"),
+            np.array(self._Ts),
+            constraint_acceptance_ratio,
+            constraint_elasticity,
         )
diff --git a/flory/constraint/linear_local.py b/flory/constraint/linear_local.py
index 0bcd33d..0400c2e 100644
--- a/flory/constraint/linear_local.py
+++ b/flory/constraint/linear_local.py
@@ -210,5 +210,8 @@ class LinearLocalConstraint(ConstraintBase):
             : Instance of :class:`LinearLocalConstraintCompiled`.
         """
         return LinearLocalConstraintCompiled(
-            self._Cs, self._Ts, constraint_acceptance_ratio, constraint_elasticity
+            np.array(self._Cs, order="C"),
+            np.array(self._Ts),
+            constraint_acceptance_ratio,
+            constraint_elasticity,
         )
-- 
2.43.0


From 30f88672d76c2891b6fe8772e4f55544c1f31ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:31 +0000
Subject: [PATCH 10/16] fix: convert fields for reinitialization to floats

---
 flory/mcmp/finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/mcmp/finder.py b/flory/mcmp/finder.py
index 94cd7be..5f026cb 100644
--- a/flory/mcmp/finder.py
+++ b/flory/mcmp/finder.py
@@ -298,7 +298,7 @@ class CoexistingPhasesFinder:
         Returns:
             : The field converted to numpy array.
         """
-        field = np.array(field)
+        field = np.array(field, dtype=float)
         if field.shape != self._omegas.shape:
             self._logger.error(
                 "field with size of %s is invalid. It must have the size of %s.",
-- 
2.43.0


From 80ab13417ce4215b482f99ab9e657e73419d6cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:31 +0000
Subject: [PATCH 11/16] fix: keep the previous instance when a new one is
 rejected by the finder

---
 flory/mcmp/finder.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/flory/mcmp/finder.py b/flory/mcmp/finder.py
index 5f026cb..afd540b 100644
--- a/flory/mcmp/finder.py
+++ b/flory/mcmp/finder.py
@@ -324,10 +324,9 @@ class CoexistingPhasesFinder:
             kwargs:
                 The keyword arguments to update the default.
         """
-        self._interaction = interaction.compiled(
-            **{**self._kwargs_for_instances, **kwargs}
-        )
-        self.check_instance(self._interaction)
+        compiled = interaction.compiled(**{**self._kwargs_for_instances, **kwargs})
+        self.check_instance(compiled)
+        self._interaction = compiled
         if if_reset_revive:
             self.reset_revive()
 
@@ -348,8 +347,9 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._entropy = entropy.compiled(**{**self._kwargs_for_instances, **kwargs})
-        self.check_instance(self._entropy)
+        compiled = entropy.compiled(**{**self._kwargs_for_instances, **kwargs})
+        self.check_instance(compiled)
+        self._entropy = compiled
         if if_reset_revive:
             self.reset_revive()
 
@@ -370,8 +370,9 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._ensemble = ensemble.compiled(**{**self._kwargs_for_instances, **kwargs})
-        self.check_instance(self._ensemble)
+        compiled = ensemble.compiled(**{**self._kwargs_for_instances, **kwargs})
+        self.check_instance(compiled)
+        self._ensemble = compiled
         if if_reset_revive:
             self.reset_revive()
 
@@ -400,12 +401,12 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._constraints = []
+        compiled = []
         if constraints:
             if isinstance(constraints, ConstraintBase):
                 if kwargs_individual is None:
                     kwargs_individual = {}
-                self._constraints.append(
+                compiled.append(
                     constraints.compiled(
                         **{**self._kwargs_for_instances, **kwargs, **kwargs_individual}
                     )
@@ -414,16 +415,17 @@ class CoexistingPhasesFinder:
                 if kwargs_individual is None:
                     kwargs_individual = [{}] * len(constraints)
                 for cons, current_args in zip(constraints, kwargs_individual):
-                    self._constraints.append(
+                    compiled.append(
                         cons.compiled(
                             **{**self._kwargs_for_instances, **kwargs, **current_args}
                         )
                     )
         else:
-            self._constraints.append(NoConstraintCompiled(self._num_feat))
+            compiled.append(NoConstraintCompiled(self._num_feat))
 
-        for cons in self._constraints:
+        for cons in compiled:
             self.check_instance(cons)
+        self._constraints = compiled
 
         self.reinitialize_constraint()
 
-- 
2.43.0


From 57cf33bae4f0caa2a2945c74559b5659b1500083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:31 +0000
Subject: [PATCH 12/16] fix: do not draw from an empty list when no compartment
 is large enough to be copied

---
 flory/mcmp/_finder_impl.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/flory/mcmp/_finder_impl.py b/flory/mcmp/_finder_impl.py
index 25eb842..23326ef 100644
--- a/flory/mcmp/_finder_impl.py
+++ b/flory/mcmp/_finder_impl.py
@@ -186,7 +186,7 @@ def revive_compartments_by_copy(
             dead_count += 1
 
     for itr_dead in dead_indexes[:dead_count]:
-        while True:
+        while living_nicely_count > 0:
             pos_in_living = rng.integers(0, living_nicely_count)
             ref_index = living_nicely_indexes[pos_in_living]
             if Js[int(ref_index)] > 2.0 * threshold:
@@ -203,6 +203,13 @@ def revive_compartments_by_copy(
                 living_nicely_count
             ]
             living_nicely_indexes[living_nicely_count] = -1
+        else:
+            # no compartment splits into two living ones, so split the largest one
+            largest_index = np.argmax(Js)
+            targets[:, itr_dead] = targets[:, largest_index]
+            Js[largest_index] *= 0.5
+            Js[itr_dead] = Js[largest_index]
+            revive_count += 1
     return revive_count
 
 
-- 
2.43.0


From b8227e7d105ba123ca1a7c0a5738ef7ea547f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:31 +0000
Subject: [PATCH 13/16] fix: sort the clustered phases as documented

---
 flory/common/phases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/common/phases.py b/flory/common/phases.py
index a032adc..8e5d38a 100644
--- a/flory/common/phases.py
+++ b/flory/common/phases.py
@@ -141,7 +141,7 @@ class Phases:
             cluster_fractions.append(mean_fractions)
             cluster_volumes.append(current_volumes.sum())
 
-        return self._copy(cluster_volumes, cluster_fractions)
+        return self._copy(cluster_volumes, cluster_fractions).sort()
 
 
 class PhasesResult(Phases):
-- 
2.43.0


From bbf0cc382a74793d61128864fda86ff65f1956ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:07 +0000
Subject: [PATCH 14/16] fix: bound the actual volume change per step by the
 documented maximum

---
 flory/mcmp/_finder_impl.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flory/mcmp/_finder_impl.py b/flory/mcmp/_finder_impl.py
index 23326ef..0c1faa3 100644
--- a/flory/mcmp/_finder_impl.py
+++ b/flory/mcmp/_finder_impl.py
@@ -392,8 +392,12 @@ def multicomponent_self_consistent_metastep(
         Js_diff = (local_energy_mean - local_energy) * masks
         max_abs_Js_diff = np.abs(Js_diff).max()
 
-        # calculate additional factor to scale down iteration
-        Js_max_change = max(max_abs_Js_diff * acceptance_Js, Js_step_upper_bound)
+        # calculate additional factor to scale down iteration. Since the total volume is
+        # conserved below, compartments only change relative to the average change.
+        Js_change = (Js_diff - Js_diff.sum() / n_valid_phase) * masks
+        Js_max_change = max(
+            np.abs(Js_change).max() * acceptance_Js, Js_step_upper_bound
+        )
         additional_factor = Js_step_upper_bound / Js_max_change
 
         # update Js
-- 
2.43.0


From 6c81891af1c5b6130a2b129f4f6fd24547c2b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:24 +0000
Subject: [PATCH 15/16] fix: never copy dead compartments that still have a
 volume

---
 flory/mcmp/_finder_impl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flory/mcmp/_finder_impl.py b/flory/mcmp/_finder_impl.py
index 0c1faa3..78eb7f6 100644
--- a/flory/mcmp/_finder_impl.py
+++ b/flory/mcmp/_finder_impl.py
@@ -184,6 +184,7 @@ def revive_compartments_by_copy(
         elif Js[itr_compartment] <= threshold:
             dead_indexes[dead_count] = itr_compartment
             dead_count += 1
+            Js[itr_compartment] = 0.0  # dead compartments must not be copied below
 
     for itr_dead in dead_indexes[:dead_count]:
         while living_nicely_count > 0:
-- 
2.43.0


From 3b46bbf7fd7c629e723b42941f5e186c5a6ec20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:46 +0000
Subject: [PATCH 16/16] fix: do not assign components of other groups to empty
 groups

---
 flory/entropy/ideal_gas_polydispersed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flory/entropy/ideal_gas_polydispersed.py b/flory/entropy/ideal_gas_polydispersed.py
index a7e3674..8dd6a8c 100644
--- a/flory/entropy/ideal_gas_polydispersed.py
+++ b/flory/entropy/ideal_gas_polydispersed.py
@@ -84,9 +84,8 @@ class IdealGasPolydispersedEntropyCompiled(EntropyBaseCompiled):
     def comp_to_feat(self, phis_feat: np.ndarray, phis_comp: np.ndarray) -> None:
         itr_comp = 0
         for itr_feat in range(self._num_feat):
-            phis_feat[itr_feat] = phis_comp[itr_comp]
-            itr_comp += 1
-            for _ in range(1, self._num_comp_per_feat[itr_feat]):
+            phis_feat[itr_feat] = 0.0  # groups of components may be empty
+            for _ in range(self._num_comp_per_feat[itr_feat]):
                 phis_feat[itr_feat] += phis_comp[itr_comp]
                 itr_comp += 1
 
-- 
2.43.0

