From d75271c2f89b734342116ed3c0269db7f4b66d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 01/15] fix: return None for type-I magnetic space group in
 decompose_by_maximal_space_subgroup

---
 src/spgrep/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 67e82ff..3bcc92a 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -224,7 +224,7 @@ def decompose_by_maximal_space_subgroup(
     a0_idx: int
         Index of :math:`a_{0}` in given list of symmetries
     """
-    if np.all(time_reversals == 1):
+    if np.all(time_reversals == 0):
         # Type-I MSG
         return None
 
-- 
2.43.0


From 5dc69c11c145017a26a0cca5c95a3352e2ada3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 02/15] fix: map new operations to their index among unique
 operations in unique_primitive_symmetry

---
 src/spgrep/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index c31dcae..cb01c06 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -84,7 +84,7 @@ def unique_primitive_symmetry(
             # New symmetry operation
             unique_rotations.append(rotation)
             unique_translations.append(np.remainder(translation, 1))
-            mapping_to_primitive_symmetry[i] = i
+            mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1
             rotations_int.append(rotation_int)
 
     return np.array(unique_rotations), np.array(unique_translations), mapping_to_primitive_symmetry
-- 
2.43.0


From c57c09c66c75ecf6b73ecf7f1c0d04c04fbfdd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 03/15] fix: transform input cell other than the standard one
 into a primitive cell

---
 src/spgrep/core.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 112a1a8..2460725 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -98,7 +98,7 @@ def get_spacegroup_irreps(
     translations = dataset["translations"]
 
     # Transform to primitive
-    to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    to_primitive = _get_transformation_matrix_to_primitive(dataset)
     prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
         to_primitive, rotations, translations, kpoint_conv
     )
@@ -379,7 +379,7 @@ def get_spacegroup_spinor_irreps(
     translations = dataset["translations"]
 
     # Transform to primitive
-    to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    to_primitive = _get_transformation_matrix_to_primitive(dataset)
     prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
         to_primitive, rotations, translations, kpoint_conv
     )
@@ -691,6 +691,16 @@ def get_crystallographic_pointgroup_spinor_irreps_from_symmetry(
 ################################################################################
 
 
+def _get_transformation_matrix_to_primitive(dataset) -> NDArrayFloat:
+    """Return transformation matrix from input cell of ``dataset`` into a primitive cell."""
+    # Let A, A_std, and A_prim be column-wise basis vectors of input, standardized, and primitive cells.
+    # A = A_std @ dataset["transformation_matrix"] and A_prim = A_std @ std_to_primitive.
+    # Thus, A = A_prim @ input_to_primitive with an integer matrix because A spans a sublattice of A_prim.
+    std_to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    input_to_primitive = np.linalg.inv(std_to_primitive) @ dataset["transformation_matrix"]
+    return np.linalg.inv(np.rint(input_to_primitive))
+
+
 def _adjust_phase_for_centering_translations(
     prim_translations,
     prim_kpoint,
-- 
2.43.0


From 513ec5b2fa2ca89e93ebf770aa0777b5e828a525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 04/15] fix: return spinor factor system and unitary rotations
 for the little group in the input cell

---
 src/spgrep/core.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 2460725..9c8ec4a 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -119,7 +119,7 @@ def get_spacegroup_irreps(
     )
 
     # Go back to conventional cell
-    irreps, mapping_little_group = _adjust_phase_for_centering_translations(
+    irreps, mapping_little_group, _ = _adjust_phase_for_centering_translations(
         prim_translations,
         prim_kpoint,
         uniq_prim_translations,
@@ -429,7 +429,7 @@ def get_spacegroup_spinor_irreps(
         )
 
     # Go back to conventional cell
-    irreps, mapping_little_group = _adjust_phase_for_centering_translations(
+    irreps, mapping_little_group, mapping_conv_to_prim = _adjust_phase_for_centering_translations(
         prim_translations,
         prim_kpoint,
         uniq_prim_translations,
@@ -437,6 +437,10 @@ def get_spacegroup_spinor_irreps(
         prim_irreps,
         mapping_prim_little_group,
     )
+    little_spinor_factor_system = little_spinor_factor_system[
+        np.ix_(mapping_conv_to_prim, mapping_conv_to_prim)
+    ]
+    little_unitary_rotations = little_unitary_rotations[mapping_conv_to_prim]
 
     if magmoms is None:
         return (
@@ -452,7 +456,7 @@ def get_spacegroup_spinor_irreps(
             irreps,
             little_spinor_factor_system,
             little_unitary_rotations,
-            little_anti_linear,
+            little_anti_linear[mapping_conv_to_prim],
             rotations,
             translations,
             time_reversals,
@@ -739,4 +743,4 @@ def _adjust_phase_for_centering_translations(
         irrep = purify_irrep_value(irrep)
 
         irreps.append(irrep)
-    return irreps, np.array(mapping_little_group)
+    return irreps, np.array(mapping_little_group), np.array(mapping_conv_to_prim_little_group)
-- 
2.43.0


From 5615fafd0a7d5b5769c22edaa4c8502a5f69f866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 05/15] fix: keep anti-unitary operations sharing a rotation
 for magnetic structures and type-IV groups

---
 src/spgrep/core.py      | 13 +++++++++----
 src/spgrep/transform.py | 17 ++++++++++++-----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 9c8ec4a..0edd898 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -370,10 +370,12 @@ def get_spacegroup_spinor_irreps(
 
     if magmoms is None:
         dataset = get_symmetry_dataset(cell=(lattice, positions, numbers), symprec=symprec)
+        time_reversals = None
     else:
         dataset = get_magnetic_symmetry_dataset(
             cell=(lattice, positions, numbers, magmoms), symprec=symprec
         )
+        time_reversals = np.array(dataset["time_reversals"], dtype=np.int_)
 
     rotations = dataset["rotations"]
     translations = dataset["translations"]
@@ -386,7 +388,7 @@ def get_spacegroup_spinor_irreps(
     prim_lattice = to_primitive.T @ lattice  # (AP)^T = P^T @ A^T
     # mapping_to_prim: [0..num_sym) -> [0..order)
     uniq_prim_rotations, uniq_prim_translations, mapping_to_prim = unique_primitive_symmetry(
-        prim_rotations, prim_translations
+        prim_rotations, prim_translations, time_reversals
     )
 
     if magmoms is None:
@@ -407,8 +409,8 @@ def get_spacegroup_spinor_irreps(
             max_num_random_generations=max_num_random_generations,
         )
     else:
-        time_reversals = dataset["time_reversals"]
-        uniq_prim_time_reversals = time_reversals[mapping_to_prim]
+        uniq_prim_time_reversals = np.empty((len(uniq_prim_rotations),), dtype=np.int_)
+        uniq_prim_time_reversals[mapping_to_prim] = time_reversals
         (
             prim_irreps,
             _,
@@ -540,7 +542,10 @@ def get_spacegroup_spinor_irreps_from_primitive_symmetry(
         kpoint = np.zeros(3)
 
     # Sanity check to use primitive cell
-    for rotation, translation in zip(rotations, translations):
+    for i, (rotation, translation) in enumerate(zip(rotations, translations)):
+        if time_reversals is not None and time_reversals[i] != 0:
+            # Anti-translation is not a lattice translation
+            continue
         if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and not np.allclose(
             translation, 0, atol=atol
         ):
diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index cb01c06..9271fae 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -53,7 +53,9 @@ def transform_symmetry_and_kpoint(
 
 
 def unique_primitive_symmetry(
-    rotations: NDArrayInt, translations: NDArrayFloat
+    rotations: NDArrayInt,
+    translations: NDArrayFloat,
+    time_reversals: NDArrayInt | None = None,
 ) -> tuple[NDArrayInt, NDArrayFloat, list[int]]:
     """Remove duplicated symmetry operations.
 
@@ -61,6 +63,8 @@ def unique_primitive_symmetry(
     ----------
     rotations: array, (num_sym, 3, 3)
     translations: array, (num_sym, 3)
+    time_reversals: (Optional) array[int], (num_sym, )
+        If specified, operations with different time-reversal parts are not duplicated.
 
     Returns
     -------
@@ -69,15 +73,18 @@ def unique_primitive_symmetry(
     mapping_to_primitive_symmetry: array, (num_sym, )
         ``(rotations[i], translations[i])`` is transformed to ``(unique_rotations[j], unique_translations[j])`` where ``j = mapping_to_primitive_symmetry[i]``.
     """
-    rotations_int: list[tuple[tuple[int]]] = []
+    if time_reversals is None:
+        time_reversals = np.zeros((len(rotations),), dtype=np.int_)
+
+    operations_int: list[tuple[tuple[tuple[int]], int]] = []
 
     unique_rotations = []
     unique_translations = []
     mapping_to_primitive_symmetry = [-1 for _ in range(len(rotations))]
     for i, (rotation, translation) in enumerate(zip(rotations, translations)):
-        rotation_int = ndarray2d_to_integer_tuple(rotation)
+        operation_int = (ndarray2d_to_integer_tuple(rotation), int(time_reversals[i]))
         try:
-            j = rotations_int.index(rotation_int)
+            j = operations_int.index(operation_int)
             # Duplicated symmetry operation
             mapping_to_primitive_symmetry[i] = j
         except ValueError:
@@ -85,7 +92,7 @@ def unique_primitive_symmetry(
             unique_rotations.append(rotation)
             unique_translations.append(np.remainder(translation, 1))
             mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1
-            rotations_int.append(rotation_int)
+            operations_int.append(operation_int)
 
     return np.array(unique_rotations), np.array(unique_translations), mapping_to_primitive_symmetry
 
-- 
2.43.0


From bad9e86cb812ab3164fb4b6c87d8682c472364f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 06/15] fix: reverse k-vector by anti-unitary operations in
 little group and factor system

---
 src/spgrep/core.py  |  2 +-
 src/spgrep/corep.py |  2 ++
 src/spgrep/group.py | 20 ++++++++++++++++++--
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 0edd898..a258a5c 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -552,7 +552,7 @@ def get_spacegroup_spinor_irreps_from_primitive_symmetry(
             raise ValueError("Specify symmetry operations in primitive cell!")
 
     little_rotations, little_translations, mapping_little_group = get_little_group(
-        rotations, translations, kpoint, atol=atol
+        rotations, translations, kpoint, atol=atol, time_reversals=time_reversals
     )
 
     if time_reversals is None:
diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index b0fbafc..dac37bf 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -40,6 +40,7 @@ def enumerate_spinor_small_corepresentations(
        \overline{\mathbf{D}}^{\mathbf{k}\alpha}(\mathbf{S}_{i}1') \overline{\mathbf{D}}^{\mathbf{k}\alpha}(\mathbf{S}_{j}\theta_{j})^{\ast}
             = \omega(\mathbf{S}_{i}1', \mathbf{S}_{j}\theta_{j}) e^{ -i \mathbf{g}_{i} \cdot \mathbf{w}_{j} } \overline{\mathbf{D}}^{\mathbf{k}\alpha}(\mathbf{S}_{k}\theta_{k}) \\
 
+    where :math:`\mathbf{g}_{i} = \mathbf{S}_{i}^{-1} \mathbf{k} - \mathbf{k}` for unitary operations and :math:`\mathbf{g}_{i} = \mathbf{S}_{i}^{-1} \mathbf{k} + \mathbf{k}` for anti-unitary operations.
     See :ref:`corep_spinor_factor_system` for spinor-derived factor system :math:`\omega`.
 
     Parameters
@@ -108,6 +109,7 @@ def enumerate_spinor_small_corepresentations(
         little_rotations,
         little_translations,
         kpoint,
+        little_time_reversals,
     )
     factor_system = corep_spinor_factor_system * nonsymmorphic_factor_system
 
diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 3bcc92a..68e6170 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -102,6 +102,7 @@ def get_factor_system_from_little_group(
     little_rotations: NDArrayInt,
     little_translations: NDArrayFloat,
     kpoint: NDArrayFloat,
+    little_time_reversals: NDArrayInt | None = None,
 ) -> NDArrayComplex:
     r"""Calculate factor system of projective representation of little co-group.
 
@@ -110,6 +111,7 @@ def get_factor_system_from_little_group(
        = \exp \left( -i \mathbf{g}_{i} \cdot \mathbf{w}_{j} \right) D^{\mathbf{k}}_{p}(S_{k})
 
     where :math:`S_{i}S_{j} = S_{k}` and :math:`\mathbf{g}_{i} = S_{i}^{-1} \mathbf{k} - \mathbf{k}`.
+    For an anti-unitary operation :math:`S_{i}1'`, :math:`\mathbf{g}_{i} = S_{i}^{-1} \mathbf{k} + \mathbf{k}`.
 
     Parameters
     ----------
@@ -118,6 +120,8 @@ def get_factor_system_from_little_group(
     little_translations: array, (order, 3)
         Translation parts of coset of little group stabilizing ``kpoint``.
     kpoint: array, (3, )
+    little_time_reversals: (Optional) array[int], (order, )
+        Time-reversal parts of coset of little group stabilizing ``kpoint``.
 
     Returns
     -------
@@ -125,11 +129,15 @@ def get_factor_system_from_little_group(
         Factor system of representations of little co-group that have one-to-one correspondence to small representations
     """
     n = len(little_rotations)
+    kpoint = np.asarray(kpoint)
 
     residuals = np.zeros((n, 3))
     for i, rotation in enumerate(little_rotations):
         # Never take modulus!
-        residuals[i] = rotation.T @ kpoint - kpoint
+        if little_time_reversals is not None and little_time_reversals[i]:
+            residuals[i] = rotation.T @ kpoint + kpoint
+        else:
+            residuals[i] = rotation.T @ kpoint - kpoint
 
     factor_system = np.zeros((n, n), dtype=np.complex_)
     for i, residual in enumerate(residuals):
@@ -144,6 +152,7 @@ def get_little_group(
     translations: NDArrayFloat,
     kpoint: NDArrayFloat,
     atol: float = 1e-8,
+    time_reversals: NDArrayInt | None = None,
 ) -> tuple[NDArrayInt, NDArrayFloat, NDArrayInt]:
     """Return coset of little group of given space group which stabilize kpoint under rotations.
 
@@ -152,6 +161,9 @@ def get_little_group(
     rotations: array, (order, 3, 3)
     translations: array, (order, 3)
     kpoint: array, (3, )
+    atol: float
+    time_reversals: (Optional) array[int], (order, )
+        If specified, anti-unitary operations additionally reverse ``kpoint``.
 
     Returns
     -------
@@ -164,9 +176,13 @@ def get_little_group(
     little_rotations = []
     little_translations = []
     mapping_little_group = []
+    kpoint = np.asarray(kpoint)
 
     for i, (rotation, translation) in enumerate(zip(rotations, translations)):
-        residual = rotation.T @ kpoint - kpoint
+        if time_reversals is not None and time_reversals[i]:
+            residual = -rotation.T @ kpoint - kpoint
+        else:
+            residual = rotation.T @ kpoint - kpoint
         residual = residual - np.rint(residual)
         if not np.allclose(residual, 0, atol=atol):
             continue
-- 
2.43.0


From 052d735cf40ee5d062c7d09c3449f9f713a9b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:41 +0000
Subject: [PATCH 07/15] fix: take complex conjugate of matrices right to
 anti-linear operator in co-representations

---
 src/spgrep/corep.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index dac37bf..244d704 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -191,7 +191,9 @@ def enumerate_spinor_small_corepresentations(
             corep = np.zeros((order, dim, dim), dtype=np.complex_)
             corep[xsg_indices] = irrep
             corep[a0u] = (
-                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None] * U[None, :, :] @ irrep
+                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
+                * U[None, :, :]
+                @ np.conj(irrep)
             )
         elif indicator == -1:
             U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)
@@ -211,7 +213,7 @@ def enumerate_spinor_small_corepresentations(
             corep[a0u] = (
                 np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                 * corep_a0[None, :, :]
-                @ corep[xsg_indices]
+                @ np.conj(corep[xsg_indices])
             )
         elif indicator == 0:
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
@@ -232,7 +234,7 @@ def enumerate_spinor_small_corepresentations(
             corep[a0u] = (
                 np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                 * corep_a0[None, :, :]
-                @ corep[xsg_indices]
+                @ np.conj(corep[xsg_indices])
             )
         else:
             raise ValueError("Unreachable!")
-- 
2.43.0


From 5e814ccf75ba2a7c62e85db7d4d4637763e77b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 08/15] fix: use the same irrep in both blocks of pseudo-real
 co-representations

---
 docs/formulation/irreps/corep.md | 8 ++++----
 src/spgrep/corep.py              | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/docs/formulation/irreps/corep.md b/docs/formulation/irreps/corep.md
index 7942ebc..c9457dd 100644
--- a/docs/formulation/irreps/corep.md
+++ b/docs/formulation/irreps/corep.md
@@ -72,7 +72,7 @@ A new basis $\{ \frac{1}{\sqrt{2}}(\phi_{i} + \psi_{i}) \}_{i}$ gives the follow
 $$
     \tilde{\mathbf{\Gamma}}(u) &= \mathbf{\Gamma}(u) \\
     \tilde{\mathbf{\Gamma}}(a_{0}) &= \mathbf{U} \\
-    \tilde{\mathbf{\Gamma}}(a_{0}u) &= \omega(a_{0}, u)^{\ast} \tilde{\mathbf{\Gamma}}(a_{0}) \tilde{\mathbf{\Gamma}}(u) \\
+    \tilde{\mathbf{\Gamma}}(a_{0}u) &= \omega(a_{0}, u)^{\ast} \tilde{\mathbf{\Gamma}}(a_{0}) \tilde{\mathbf{\Gamma}}(u)^{\ast} \\
     \mathbf{U}\mathbf{U}^{\ast} &= \omega(a_{0}, a_{0})\Gamma(a_{0}^{2}).
 $$
 
@@ -98,14 +98,14 @@ $$
     \tilde{\mathbf{\Gamma}}(u) &=
         \begin{pmatrix}
             \mathbf{\Gamma}(u) & \mathbf{0} \\
-            \mathbf{0} & \overline{\mathbf{\Gamma}}(u) \\
+            \mathbf{0} & \mathbf{\Gamma}(u) \\
         \end{pmatrix} \\
     \tilde{\mathbf{\Gamma}}(a_{0}) &=
         \begin{pmatrix}
             \mathbf{0} & -\mathbf{U} \\
             \mathbf{U} & \mathbf{0} \\
         \end{pmatrix} \\
-    \tilde{\mathbf{\Gamma}}(a_{0}u) &= \omega(a_{0}, u)^{\ast} \tilde{\mathbf{\Gamma}}(a_{0}) \tilde{\mathbf{\Gamma}}(u)
+    \tilde{\mathbf{\Gamma}}(a_{0}u) &= \omega(a_{0}, u)^{\ast} \tilde{\mathbf{\Gamma}}(a_{0}) \tilde{\mathbf{\Gamma}}(u)^{\ast}
 $$
 
 ### Case: $\xi^{\alpha} = 0$
@@ -123,7 +123,7 @@ $$
             \mathbf{0} & \omega(a_{0}, a_{0}) \mathbf{\Gamma}(a_{0}^{2}) \\
             \mathbf{1} & \mathbf{0} \\
         \end{pmatrix} \\
-    \tilde{\mathbf{\Gamma}}(a_{0}u) &= \omega(a_{0}, u)^{\ast} \tilde{\mathbf{\Gamma}}(a_{0}) \tilde{\mathbf{\Gamma}}(u)
+    \tilde{\mathbf{\Gamma}}(a_{0}u) &= \omega(a_{0}, u)^{\ast} \tilde{\mathbf{\Gamma}}(a_{0}) \tilde{\mathbf{\Gamma}}(u)^{\ast}
 $$
 
 (corep_spinor_factor_system)=
diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index 244d704..4355896 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -200,9 +200,9 @@ def enumerate_spinor_small_corepresentations(
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
 
             # [ [irrep, 0],
-            #   [0, conj_irrep]]
+            #   [0, irrep]]
             corep[xsg_indices, :dim, :dim] = irrep
-            corep[xsg_indices, dim:, dim:] = conj_irrep
+            corep[xsg_indices, dim:, dim:] = irrep
 
             # [ [0, -U],
             #   [U, 0] ]
-- 
2.43.0


From 501df12905101147a18220ec6b169f875d0cb719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 09/15] fix: diagonalize degenerate intertwiner by orthogonal
 matrix for physically irreducible representations

---
 docs/formulation/irreps/reality.md |  6 +++---
 src/spgrep/irreps.py               | 18 ++++++------------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/docs/formulation/irreps/reality.md b/docs/formulation/irreps/reality.md
index e0ce44e..bc2b63f 100644
--- a/docs/formulation/irreps/reality.md
+++ b/docs/formulation/irreps/reality.md
@@ -44,11 +44,11 @@ $$
   \mathbf{T}^{\top} &= \mathbf{T}.
 $$
 
-A transformed representation $\mathbf{\Gamma}'(g) := \mathbf{T}\mathbf{\Gamma}(g)\mathbf{T}^{-1}$ is real because
+A transformed representation $\mathbf{\Gamma}'(g) := \mathbf{T}^{-1}\mathbf{\Gamma}(g)\mathbf{T}$ is real because
 $$
   \mathbf{\Gamma}'(g)
-  &= \mathbf{T} \mathbf{U}^{-1} \mathbf{\Gamma}(g)^{\ast} \mathbf{U} \mathbf{T}^{-1} \\
-  &= \mathbf{T}^{-1} \mathbf{\Gamma}(g)^{\ast} \mathbf{T} \\
+  &= \mathbf{T}^{-1} \mathbf{U} \mathbf{\Gamma}(g)^{\ast} \mathbf{U}^{-1} \mathbf{T} \\
+  &= \mathbf{T} \mathbf{\Gamma}(g)^{\ast} \mathbf{T}^{-1} \\
   &= \mathbf{\Gamma}'(g)^{\ast}.
 $$
 
diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 1aae7d9..620a6ff 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -596,21 +596,15 @@ def get_physically_irrep(
             irrep, conj_irrep, atol=atol, max_num_random_generations=max_num_random_generations
         )
 
-        # Take real or imaginary part of eigenvectors for new basis vectors
-        eigvals, eigvecs = np.linalg.eig(U)  # eigvecs[:, i] is the i-th eigenvector
-        real_eigvecs = []
-        for eigvec in np.transpose(eigvecs):
-            if not np.allclose(np.real(eigvec), 0, atol=atol):
-                real_eigvec = np.real(eigvec)
-            else:
-                real_eigvec = np.imag(eigvec)
-            real_eigvecs.append(real_eigvec / np.linalg.norm(real_eigvec))
-        S = np.transpose(real_eigvecs)
+        # Since U is symmetric and unitary, its real and imaginary parts are commuting real symmetric matrices.
+        # Then, eigenvectors of their generic combination form real orthogonal matrix diagonalizing U.
+        _, S = np.linalg.eigh(np.cos(1) * np.real(U) + np.sin(1) * np.imag(U))
+        eigvals = np.diag(S.T @ U @ S)
 
         # Square root of intertwiner
-        T = S.T @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S
+        T = S @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S.T
 
-        real_irrep = np.real(np.einsum("il,klm,mj->kij", T, irrep, np.conj(T), optimize="greedy"))
+        real_irrep = np.real(np.einsum("il,klm,mj->kij", np.conj(T), irrep, T, optimize="greedy"))
 
     elif indicator in [-1, 0]:
         real_irrep = np.empty((order, 2 * dim, 2 * dim), dtype=np.float_)
-- 
2.43.0


From 1246a0bc58c9a545c50ff551ad601f9b93ec02fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 10/15] fix: evaluate Frobenius-Schur indicator only for
 k-points equivalent to their conjugates

---
 src/spgrep/irreps.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 620a6ff..fb088c5 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -95,8 +95,15 @@ def enumerate_small_representations(
         )
         irreps.append(rep * phases[:, None, None])
 
+    # Summation over translations in Frobenius-Schur indicator becomes zero unless `2*kpoint equiv 0`
+    two_kpoint = 2 * np.asarray(kpoint)
+    is_conjugated_kpoint_equivalent = np.allclose(two_kpoint - np.rint(two_kpoint), 0)
+
     if not real:
-        indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        if is_conjugated_kpoint_equivalent:
+            indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        else:
+            indicators = [0 for _ in irreps]
         return irreps, indicators
 
     # Physically irreducible representation
@@ -124,12 +131,7 @@ def enumerate_small_representations(
     for conj_pair in conjugated_pairs:
         irrep = irreps[conj_pair[0]]
 
-        indicator = frobenius_schur_indicator(irrep)
-        # summation over translations becomes zero unless `2*kpoint equiv 0`
-        two_kpoint = 2 * kpoint
-        two_kpoint -= np.rint(two_kpoint)
-        if not np.allclose(two_kpoint, 0):
-            indicator = 0
+        indicator = frobenius_schur_indicator(irrep) if is_conjugated_kpoint_equivalent else 0
 
         real_irrep = get_physically_irrep(
             irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations
@@ -202,7 +204,11 @@ def enumerate_unitary_irreps(
         irrep = purify_irrep_value(irrep, atol=atol)
 
     if not real:
-        indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        if np.allclose(np.imag(factor_system), 0):
+            indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        else:
+            # Irrep and its conjugation have different factor systems
+            indicators = [0 for _ in irreps]
         return irreps, indicators
 
     # Physically irreducible representation
-- 
2.43.0


From 434a31734d487060827b5076dfe46bf39857c113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 11/15] fix: count multiplicities of irreps in
 decompose_representation

---
 src/spgrep/irreps.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index fb088c5..6525d16 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -348,7 +348,13 @@ def decompose_representation(
         # Decompose to subspaces corresponding to Irreps
         irreps = _get_irreps_from_matrix(representation, matrix, rtol=rtol)
 
-        if np.sum([irrep.shape[1] for irrep in irreps]) == dim0:
+        # `irreps` are mutually inequivalent, thus count their multiplicities in `representation`
+        order = representation.shape[0]
+        character = get_character(representation)
+        multiplicities = [
+            np.around(np.real(np.vdot(get_character(irrep), character)) / order) for irrep in irreps
+        ]
+        if np.sum([m * irrep.shape[1] for m, irrep in zip(multiplicities, irreps)]) == dim0:
             return irreps
 
     warn("Failed to search all irreps. Try increasing max_num_random_generations.")
-- 
2.43.0


From 33cd332f1ff740083649c2fe767c767f9fa67ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 12/15] fix: search a normal series when point group does not
 match with tabulated ones

---
 src/spgrep/pointgroup.py | 41 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/pointgroup.py b/src/spgrep/pointgroup.py
index 0fde970..fe9af2d 100644
--- a/src/spgrep/pointgroup.py
+++ b/src/spgrep/pointgroup.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import numpy as np
 from spglib import get_pointgroup
 
+from spgrep.group import get_cayley_table, get_identity_index, get_order
 from spgrep.utils import NDArrayInt, ndarray2d_to_integer_tuple
 
 # List of point groups after applying transformation matrices given by `spglib.get_pointgroup`
@@ -694,6 +695,9 @@ def get_pointgroup_chain_generators(prim_rotations: NDArrayInt) -> list[int]:
         Then, :math:`G_{i}` is normal subgroup of :math:`G_{i-1}` and factor group :math:`G_{i-1}/G_{i}` is Abelian.
     """
     pg_symbol, _, P = get_pointgroup(prim_rotations)
+    if np.isclose(np.linalg.det(P), 0):
+        # Spglib may fail to standardize axes if basis vectors are far from the reduced ones
+        return _search_chain_generators(get_cayley_table(prim_rotations))
     Pinv = np.linalg.inv(P)
 
     # Match given crystallographic point group with standardized ones in primitive basis.
@@ -714,5 +718,38 @@ def get_pointgroup_chain_generators(prim_rotations: NDArrayInt) -> list[int]:
             generators = get_generators(pg_symbol, idx)
             return [mapping[g] for g in generators]
 
-    ValueError("Failed to match with tabulated point groups.")
-    return []  # This line is unreachable, just for persuading mypy!
+    # Failed to match with tabulated point groups
+    return _search_chain_generators(get_cayley_table(prim_rotations))
+
+
+def _search_chain_generators(table: NDArrayInt) -> list[int]:
+    """Search generators of a normal series by extending the trivial group one by one.
+
+    Each generator is either an element of prime order or the order-four element of a cyclic group.
+    """
+    identity = get_identity_index(table)
+    orders = [get_order(table, i) for i in range(len(table))]
+
+    def _search(group: set[int], generators: list[int]) -> list[int] | None:
+        if len(group) == len(table):
+            return generators
+        for r in range(len(table)):
+            if r in group or not (orders[r] in (2, 3) or (orders[r] == 4 and len(group) == 1)):
+                continue
+            # `group` should be normal in the extended group
+            if {table[r, s] for s in group} != {table[s, r] for s in group}:
+                continue
+            extended = set(group)
+            rm = r
+            while rm != identity:
+                extended |= {table[rm, s] for s in group}
+                rm = table[rm, r]
+            found = _search(extended, [r] + generators)
+            if found is not None:
+                return found
+        return None
+
+    found = _search({identity}, [])
+    if found is None:
+        raise ValueError("Failed to find a normal series of given point group.")
+    return found
-- 
2.43.0


From 474007bee5ab796fa44ef2b9ee45e7c8363a0f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 13/15] fix: return False for integers less than two in
 is_prime

---
 src/spgrep/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spgrep/utils.py b/src/spgrep/utils.py
index 8fe16ca..55e8495 100644
--- a/src/spgrep/utils.py
+++ b/src/spgrep/utils.py
@@ -48,6 +48,8 @@ def get_symmetry_from_hall_number(hall_number: int) -> tuple[NDArrayInt, NDArray
 
 def is_prime(n: int) -> bool:
     """Return true if given number is prime."""
+    if n < 2:
+        return False
     for i in range(2, n):
         if n % i == 0:
             return False
-- 
2.43.0


From 25bfc6b649f8e6782937682a1f407e99768d5722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 14/15] fix: check columns of multiplication table in
 is_matrix_group

---
 src/spgrep/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 68e6170..62ceeb3 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -89,11 +89,13 @@ def is_matrix_group(rotations: NDArrayInt) -> bool:
     except ValueError:
         return False
 
-    # Check if each element appears only once in a row
+    # Check if each element appears only once in a row and in a column
     order = rotations.shape[0]
     for i in range(order):
         if set(table[i]) != set(range(order)):
             return False
+        if set(table[:, i]) != set(range(order)):
+            return False
 
     return True
 
-- 
2.43.0


From 322a7c42d320872fa84939d8da10019fb8ef4d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:37 +0000
Subject: [PATCH 15/15] fix: do not rely on spglib's undefined transformation
 for far-from-reduced bases

---
 src/spgrep/pointgroup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spgrep/pointgroup.py b/src/spgrep/pointgroup.py
index fe9af2d..b3b50af 100644
--- a/src/spgrep/pointgroup.py
+++ b/src/spgrep/pointgroup.py
@@ -694,6 +694,10 @@ def get_pointgroup_chain_generators(prim_rotations: NDArrayInt) -> list[int]:
         Let :math:`G_{0} := G` and :math:`G_{i} := G_{i-1} / \langle` ``solvable_chain_generators[i]`` :math:`\rangle` (i = 0, 1, ...).
         Then, :math:`G_{i}` is normal subgroup of :math:`G_{i-1}` and factor group :math:`G_{i-1}/G_{i}` is Abelian.
     """
+    if np.any(np.abs(prim_rotations) > 1):
+        # For basis vectors far from the reduced ones, spglib may fail to standardize axes and
+        # then returns an undefined transformation matrix
+        return _search_chain_generators(get_cayley_table(prim_rotations))
     pg_symbol, _, P = get_pointgroup(prim_rotations)
     if np.isclose(np.linalg.det(P), 0):
         # Spglib may fail to standardize axes if basis vectors are far from the reduced ones
-- 
2.43.0

