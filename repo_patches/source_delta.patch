From 890f7fd1093520a8ab80981faa3b326c679e07b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 001/100] fix: don't count inversion twice in even dimensions
 when the operations already contain it

---
 src/tight_binding_redweasel/symmetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 5b9a707..924b55a 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -96,7 +96,8 @@ class Symmetry:
                 # self.S = np.array([s for s in self.S if next((x for x in np.ravel(s) if abs(x) > 1e-4), 1) > 0])
                 # here inversion can be a problem, as it may be in the center, but it's not always a normal subgroup!
                 # for now, disable the inversion symmetry reduction in even dimensions.
-                pass
+                # it's already realized in S -> don't count it twice
+                self.inversion = False
         elif inversion and len(self.S[0]) % 2 == 0:
             # realize inversion in even dimensions
             self.S = np.concatenate([self.S, -self.S], axis=0)
-- 
2.43.0


From 9c5dea7cf72cb8e13188ba8375a3ddd5b823d866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 002/100] fix: compare symmetry groups by all their operations,
 not by the stored representatives

---
 src/tight_binding_redweasel/symmetry.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 924b55a..88c6d82 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -135,11 +135,10 @@ class Symmetry:
     def __eq__(self, other: 'Symmetry') -> bool:
         if self.dim() != other.dim():
             return False
-        if self.inversion != other.inversion:
-            return False
         if len(self) != len(other):
             return False
-        return pointcloud_distance(self.S, other.S) < len(self.S) * 1e-7
+        # compare all operations, as S is only unique up to inversion if there is inversion symmetry
+        return pointcloud_distance(self.get_symmetry_operations(), other.get_symmetry_operations()) < len(self) * 1e-7
 
     def __len__(self) -> int:
         """Cardinality of the group (including inversion symmetry if present!)"""
@@ -961,11 +960,10 @@ class Symmetry:
         # Lagranges Theorem says the subgroup size must divide the group size
         if len(self) % len(other) != 0:
             return False
-        if other.inversion and not self.inversion:
-            return False
         # now check if all matrices of other are contained in self
-        for s in other.S:
-            if not np.any(np.linalg.norm(s[None] - self.S, axis=(1, 2)) < 1e-7):
+        S = self.get_symmetry_operations()
+        for s in other.get_symmetry_operations():
+            if not np.any(np.linalg.norm(s[None] - S, axis=(1, 2)) < 1e-7):
                 return False
         return True
 
-- 
2.43.0


From 7d2d8b414facb7d76cf1667d820969f3173f96fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 003/100] fix: subgroup has to consider the operations that
 include inversion

---
 src/tight_binding_redweasel/symmetry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 88c6d82..fb4c86c 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -906,11 +906,12 @@ class Symmetry:
             Self: The subgroup that keeps the value constant.
         """
         value = invariant_func(self.S[0])
+        # each operation has to be tested, as s and -s can have different values
         S = [np.array(self.S[0])]
-        for s in self.S[1:]:
+        for s in self.get_symmetry_operations()[1:]:
             if np.linalg.norm(invariant_func(s) - value) < 1e-8:
                 S.append(s)
-        sym = Symmetry(S, abs(invariant_func(-self.S[0]) - value) < 1e-8 if self.inversion else False)
+        sym = Symmetry(S)
         assert sym.check(), "The subgroup is not closed, therefore the function was not a class function or the original group was not closed"
         return sym
 
-- 
2.43.0


From 369f496903cb5bff5e294d7a0479deda5003eb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 004/100] fix: check_symmetry has to test inversion symmetry as
 well

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index fb4c86c..943f602 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -514,7 +514,7 @@ class Symmetry:
         r_smpl = np.random.random((50, len(self.S[0])))
         for r in r_smpl:
             values = []
-            for s in self.S:
+            for s in self.get_symmetry_operations():
                 values.append(foo(s @ r))
             if np.linalg.norm(np.std(values, axis=0)) > tolerance:
                 if verbose:
-- 
2.43.0


From b5fcca9eb07e53a3eef434815ce914bf43536c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 005/100] fix: reduce_symmetric_data missed equivalent points
 with similar lengths

---
 src/tight_binding_redweasel/symmetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 943f602..34dfbbd 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -686,7 +686,8 @@ class Symmetry:
                     # find all instances of k_ in reduced_k and delete them
                     j = i
                     while j < len(reduced_k):
-                        if np.linalg.norm(reduced_k[j]) > scale * 1.0001:
+                        # the points are sorted by the rounded square of the length
+                        if np.linalg.norm(reduced_k[j])**2 > scale**2 * 1.0001 + 0.02:
                             break  # * this is what makes this a good algorithm
                         if np.linalg.norm(reduced_k[j] - k_) < scale * 1e-6:
                             if checked and np.linalg.norm(reduced[j] - value) > 1e-7:
-- 
2.43.0


From 188fe77a6b70d4c740550f4b212970fb1ac6f536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 006/100] fix: find_classes ignored inversion symmetry

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 34dfbbd..f8e2399 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -814,7 +814,7 @@ class Symmetry:
         # build the symmetry graph for the neighbor list
         for i, r in enumerate(points):
             rep_class = set()
-            for s in self.S:
+            for s in self.get_symmetry_operations():
                 r_ = s @ r
                 dist = np.linalg.norm(points - r_[None, :], axis=-1)
                 j = np.argmin(dist)
-- 
2.43.0


From d7b3356a4bd9e86bb807ad13d166b9403b93eb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 007/100] fix: check_neighbors rejected every neighbor list

---
 src/tight_binding_redweasel/symmetry.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index f8e2399..22eff1f 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -743,17 +743,16 @@ class Symmetry:
         neighbors = np.asarray(neighbors)
         neighbors = neighbors[np.argsort(np.linalg.norm(neighbors, axis=-1))]
         count = [0] * len(neighbors)
-        for i, r in enumerate(neighbors):
-            for s in zip(self.S):
+        for r in neighbors:
+            for s in self.S:
                 # using transposed symmetry operations, as the whole symmetry is meant to be in k-space
                 r_ = np.transpose(s) @ r
-                # here only the neighbors with an index similar to i need to be checked
                 # TODO replace this search by the KD-Trees
-                start = max(i - len(self.S) * 3, 0)
-                end = min(i + len(self.S) * 3, len(neighbors))
-                j = start + np.argmin(np.minimum(np.linalg.norm(neighbors[start:end] - r_[None, :], axis=-1),
-                                                 np.linalg.norm(neighbors[start:end] + r_[None, :], axis=-1)))
-                count[j] += 1
+                dist = np.minimum(np.linalg.norm(neighbors - r_[None, :], axis=-1),
+                                  np.linalg.norm(neighbors + r_[None, :], axis=-1))
+                j = np.argmin(dist)
+                if dist[j] < 1e-4:
+                    count[j] += 1
         for c in count:
             if c != len(self.S):
                 raise ValueError(f"neighbors need to be choosen to fit the symmetry, however counting occurences has found the numbers {count}")
-- 
2.43.0


From 7051d2012047ba808dcf698a2d88f552db74cfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 008/100] fix: complete_neighbors dropped points, which are not
 mirrored by the symmetry

---
 src/tight_binding_redweasel/symmetry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 22eff1f..3e3ca06 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -719,9 +719,10 @@ class Symmetry:
             if tuple(n) not in used_neighbors:  # works only for exact matches
                 new_neighbors.append((n, orig_index))
                 used_neighbors.add(tuple(n))
-        # remove negative versions
+        # remove negative versions (but only those, which have a positive version)
+        points = np.array([n for n, _ in new_neighbors])
         neighbors = [(n, orig_index) for n, orig_index in new_neighbors if next(
-            (x for x in n if abs(x) > 1e-7), 1) > 0]
+            (x for x in n if abs(x) > 1e-7), 1) > 0 or np.min(np.linalg.norm(points + n, axis=-1)) > 1e-6]
         neighbors = sorted(neighbors, key=lambda ni: np.linalg.norm(ni[0]))
         order = [orig_index for _, orig_index in neighbors]
         neighbors = [n for n, _ in neighbors]
-- 
2.43.0


From e0fdb7994d73f665b6050b6c49e4baf0b55fce90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 009/100] fix: tensors were not symmetrized with the operations
 that include inversion

---
 src/tight_binding_redweasel/symmetry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 3e3ca06..7e8033f 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -845,13 +845,14 @@ class Symmetry:
         in_letters = letters[:rank[0] + rank[1]]
         out_letters = letters[-rank[0] - rank[1]:]
         einsum_str = ",".join([b + a if i < rank[0] else a + b for i, (a, b) in enumerate(zip(in_letters, out_letters))] + [in_letters]) + "->" + out_letters
-        for s in self.S:
+        S = self.get_symmetry_operations()
+        for s in S:
             inv_s = np.linalg.inv(s)
             sign = 1
             if pseudo_tensor:
                 sign = np.sign(np.linalg.det(s))  # what happens with unitary groups where this can be from U(1)?
             res += np.einsum(einsum_str, *rank[0] * (inv_s,), *rank[1] * (s,), orig * sign, optimize="optimal")
-        res /= len(self.S)
+        res /= len(S)
         return res
 
     def equivalence_classes(self, equiv_relation: Callable[[np.ndarray, np.ndarray], bool]) -> list:
-- 
2.43.0


From 3f263f55444e172583a1727c6b177fac6a88b5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 010/100] fix: cos_reduced coefficients have to be counted for
 every symmetric image

---
 src/tight_binding_redweasel/bandstructure.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index ee2ccf2..e0f3816 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -604,22 +604,24 @@ class BandStructureModel:
         if self.neighbors is None:
             raise ValueError(
                 "This function can only be used on default tight binding models")
+        # each matrix appears with the reduced coefficient function of all symmetric images
+        images = 1 if self.sym is None else len(self.sym.S)
         if self.exp:
             H_r = np.array(self.params)
             if self.cos_reduced:
-                H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
+                H_r[0] -= images * np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
             return H_r
         H_r = np.array(self.params)
         if self.sym is not None and not self.sym.inversion:
             n = (len(self.params) + 1) // 2
             if self.cos_reduced:
                 # H_r[1:n] += H_r[0]
-                H_r[0] -= np.sum(H_r[1:n] + np.conj(np.swapaxes(H_r[1:n], -1, -2)), axis=0)
+                H_r[0] -= images * np.sum(H_r[1:n] + np.conj(np.swapaxes(H_r[1:n], -1, -2)), axis=0)
                 pass
             H_r[1:n] += H_r[n:] * -1j
             H_r = H_r[:n]
         elif self.cos_reduced:
-            H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
+            H_r[0] -= images * np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
         return H_r
 
     def set_params_complex(self, H_r):
@@ -634,10 +636,12 @@ class BandStructureModel:
             raise ValueError("This function can only be used on default tight binding models")
         if len(H_r) != len(self.neighbors):
             raise ValueError(f"The parameters {np.shape(H_r)} must match the neighbor count {len(self.neighbors)}")
+        # each matrix appears with the reduced coefficient function of all symmetric images
+        images = 1 if self.sym is None else len(self.sym.S)
         if self.exp:
             self.params = np.array(H_r)
             if self.cos_reduced:
-                self.params[0] += np.sum(self.params[1:] +
+                self.params[0] += images * np.sum(self.params[1:] +
                                          np.conj(np.swapaxes(self.params[1:], -1, -2)), axis=0)
         else:
             self.params = np.array(H_r)
@@ -650,7 +654,7 @@ class BandStructureModel:
                 self.params += np.conj(np.swapaxes(self.params, -1, -2))
             self.params /= 2
             if self.cos_reduced:
-                self.params[0] += np.sum(self.params[1:n], axis=0) * 2
+                self.params[0] += images * np.sum(self.params[1:n], axis=0) * 2
 
     def save(self, filename: str, format=None):
         """Save the model to a file format, which can be read with the correspoding `BandStructureModel.load` function.
-- 
2.43.0


From 104e3b644350de611c563af7bf0857d2459f1e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 011/100] fix: supercells lost couplings, mixed up skew
 lattices and rejected valid matrices

---
 src/tight_binding_redweasel/bandstructure.py  | 27 ++---------
 src/tight_binding_redweasel/linalg.py         | 46 +++++++++++++++++++
 .../tight_binding_asym.py                     | 22 ++-------
 3 files changed, 53 insertions(+), 42 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index e0f3816..65dbecc 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -846,33 +846,14 @@ class BandStructureModel:
         dim = len(self.neighbors[0])
         assert dim == len(A_original) and dim == len(
             A_new), "A matrix doesn't match the dimension of the model"
-        matrix = np.linalg.inv(A_original) @ A_new
-        assert np.all(np.abs(np.round(matrix) - matrix) <
-                      1e-7), "The supercell matrix must be integer valued"
-        matrix = np.round(matrix)
-        det = round(np.linalg.det(matrix))
         assert self.sym is None or len(
             self.sym) == 1, "No symmetries of the coefficients are allowed for this operation"
-        new_neighbors = self.neighbors @ matrix.T
+        new_neighbors, internal_positions = supercell_positions(self.neighbors, A_original, A_new)
         n = len(self.params[0])
-        new_band_count = n * det
+        new_band_count = n * len(internal_positions)
         params = self.params_complex()
-        # now get all integer positions in the cell defined by matrix
-        # for that, compute the (half open) bounding box of matrix * [0,1[^3
-        box = np.stack(np.meshgrid(*[[0, 1]] * dim), axis=-1).reshape(-1, dim)
-        box = box @ matrix.T
-        bounding_box = np.min(box, axis=0), np.max(box, axis=0)
-        assert np.array(bounding_box).dtype == np.int64
-        # now create a meshgrid inside the bounding box and select the points with inv(matrix) in [0, 1[
-        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d])
-                       for d in range(dim)]), axis=-1).reshape(-1, dim)
-        p_box = box @ np.linalg.inv(matrix).T
-        # internal positions + origin (0)
-        internal_positions = list(
-            p_box[np.all((p_box >= 0 - 1e-7) & (p_box < 1 - 1e-7), axis=1)] @ A_new.T)
-        assert len(internal_positions) == det
         # now build the new hamiltonian
-        H_r = np.zeros((len(params), new_band_count,
+        H_r = np.zeros((len(new_neighbors), new_band_count,
                        new_band_count), dtype=np.complex128)
         neighbor_func = try_neighbor_function(self.neighbors)
         for k, nk in enumerate(new_neighbors):
@@ -883,7 +864,7 @@ class BandStructureModel:
                         H_r[k, i * n:(i + 1) * n, j * n:(j + 1) *
                             n] = params[m] if not mirror else np.conj(params[m].T)
         model = BandStructureModel.init_tight_binding(
-            Symmetry.none(), new_neighbors, new_band_count, cos_reduced=cos_reduced, exp=exp)
+            Symmetry.none(dim), new_neighbors, new_band_count, cos_reduced=cos_reduced, exp=exp)
         model.set_params_complex(H_r)
         return model
 
diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index ae7894d..9dd01c3 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -230,6 +230,52 @@ def lattice_in_sphere(A, dist) -> np.ndarray:
     return np.array((U @ pos.T).T)
 
 
+def supercell_positions(neighbors: np.ndarray, A_original: np.ndarray, A_new: np.ndarray) -> tuple[np.ndarray, np.ndarray]:
+    """Compute the lattice points inside of a supercell and the neighbors that couple the supercells.
+
+    Args:
+        neighbors (ndarray(N_R, dim)): The neighbors (lattice vectors of the original lattice, one of each mirror pair) of the original model.
+        A_original (ndarray(dim, dim)): The basis vectors (columns) of the original lattice.
+        A_new (ndarray(dim, dim)): The basis vectors (columns) of the supercell.
+
+    Returns:
+        tuple[ndarray(N_R', dim), ndarray(|det|, dim)]: neighbors for the supercell, starting with the images of the original neighbors, and the internal positions
+    """
+    dim = len(A_original)
+    matrix = np.linalg.inv(A_original) @ A_new
+    assert np.all(np.abs(np.round(matrix) - matrix) < 1e-7), "The supercell matrix must be integer valued"
+    matrix = np.round(matrix).astype(np.int64)
+    det = abs(round(np.linalg.det(matrix)))
+    assert det != 0, "The supercell matrix must be non singular"
+    # get all integer positions in the cell defined by matrix
+    # for that, compute the bounding box of matrix * [0,1[^3
+    box = np.stack(np.meshgrid(*[[0, 1]] * dim), axis=-1).reshape(-1, dim)
+    box = box @ matrix.T
+    bounding_box = np.min(box, axis=0), np.max(box, axis=0)
+    # now create a meshgrid inside the bounding box and select the points with inv(matrix) in [0, 1[
+    box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d] + 1) for d in range(dim)]), axis=-1).reshape(-1, dim)
+    p_box = box @ np.linalg.inv(matrix).T
+    # internal positions + origin (0)
+    internal_positions = p_box[np.all((p_box >= 0 - 1e-7) & (p_box < 1 - 1e-7), axis=1)] @ A_new.T
+    assert len(internal_positions) == det
+    # the images of the original neighbors in the superlattice...
+    new_neighbors = neighbors @ (A_new @ np.linalg.inv(A_original)).T
+    # ... are not always enough to keep all couplings. -> Find all supercells that are reached by a neighbor.
+    offsets = internal_positions[:, None] - internal_positions
+    cells = (neighbors[:, None, None] + offsets) @ np.linalg.inv(A_new).T
+    cells = cells.reshape(-1, dim)
+    cells = cells[np.all(np.abs(cells - np.round(cells)) < 1e-5, axis=-1)]
+    known = {tuple(n) for n in np.round(new_neighbors @ np.linalg.inv(A_new).T, 5) + 0.0}
+    missing = []
+    for cell in np.round(cells) + 0.0:
+        if tuple(cell) not in known and tuple(0.0 - cell) not in known:
+            known.add(tuple(cell))
+            missing.append(A_new @ cell)
+    if missing:
+        new_neighbors = np.concatenate([new_neighbors, sorted(missing, key=np.linalg.norm)], axis=0)
+    return new_neighbors, internal_positions
+
+
 def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarray, x0: np.ndarray | None = None, err=1e-9, max_i: int | None = None) -> np.ndarray:
     """Generic conjugate gradient solver for `Ax=b`.
 
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 7815886..04ceb1f 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -841,28 +841,12 @@ class AsymTightBindingModel:
         A_new = np.asarray(A_new)
         dim = len(self.H.neighbors[0])
         assert dim == len(A_original) and dim == len(A_new), "A matrix doesn't match the dimension of the model"
-        matrix = np.linalg.inv(A_original) @ A_new
-        assert np.all(np.abs(np.round(matrix) - matrix) < 1e-7), "The supercell matrix must be integer valued"
-        matrix = np.round(matrix).astype(np.int64)
-        det = round(np.linalg.det(matrix))
-        new_neighbors = self.H.neighbors @ matrix.T
+        new_neighbors, internal_positions = supercell_positions(self.H.neighbors, A_original, A_new)
         n = len(self.H.H_r[0])
-        new_band_count = n * det
+        new_band_count = n * len(internal_positions)
         H_r = self.params_complex()
-        # now get all integer positions in the cell defined by matrix
-        # for that, compute the (half open) bounding box of matrix * [0,1[^3
-        box = np.stack(np.meshgrid(*[[0, 1]]*dim), axis=-1).reshape(-1, dim)
-        box = box @ matrix.T
-        bounding_box = np.min(box, axis=0), np.max(box, axis=0)
-        assert np.array(bounding_box).dtype == np.int64
-        # now create a meshgrid inside the bounding box and select the points with inv(matrix) in [0, 1[
-        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d]) for d in range(dim)]), axis=-1).reshape(-1, dim)
-        p_box = box @ np.linalg.inv(matrix).T
-        # internal positions + origin (0)
-        internal_positions = list(p_box[np.all((p_box >= 0-1e-7) & (p_box < 1-1e-7), axis=1)] @ A_new.T)
-        assert len(internal_positions) == det
         # now build the new hamiltonian
-        H_r2 = np.zeros((len(H_r), new_band_count, new_band_count), dtype=np.complex128)
+        H_r2 = np.zeros((len(new_neighbors), new_band_count, new_band_count), dtype=np.complex128)
         neighbor_func = try_neighbor_function(self.H.neighbors)
         for k, nk in enumerate(new_neighbors):
             for i, pi in enumerate(internal_positions):
-- 
2.43.0


From 801518195d6a9cf2c61c40bbfbf549b6f10d8d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 012/100] fix: BandStructureModel.load only worked for 3D
 models

---
 src/tight_binding_redweasel/bandstructure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 65dbecc..0859f32 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -741,18 +741,18 @@ class BandStructureModel:
         elif format == "wannier90hr":
             neighbors, H_r = tb_fmt.load_hr(filename)
             model = BandStructureModel.init_tight_binding(
-                Symmetry.none(), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
+                Symmetry.none(len(neighbors[0])), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
             model.set_params_complex(H_r)
         elif format == "wannier90tb":
             neighbors, H_r, w_r_params, degeneracies, A = tb_fmt.load_tb(filename)
             # TODO use A to transform neighbors to normalized reciprocal space.
             model = BandStructureModel.init_tight_binding(
-                Symmetry.none(), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
+                Symmetry.none(len(neighbors[0])), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
             model.set_params_complex(H_r)
         elif format == "json":
             neighbors, H_r = json_tb_format.load(filename)
             model = BandStructureModel.init_tight_binding(
-                Symmetry.none(), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
+                Symmetry.none(len(neighbors[0])), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
             model.set_params_complex(H_r)
         return model
 
-- 
2.43.0


From 37b9c833eb7c287fc0aa4fa79292f6fe2ce08088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 013/100] fix: the wannier90 loaders ignored the degeneracies
 of the lattice vectors

---
 .../wannier90_tb_format.py                      | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/wannier90_tb_format.py b/src/tight_binding_redweasel/wannier90_tb_format.py
index b5e3b9d..fe9d498 100644
--- a/src/tight_binding_redweasel/wannier90_tb_format.py
+++ b/src/tight_binding_redweasel/wannier90_tb_format.py
@@ -30,6 +30,7 @@ def load_tb(filename):
         neighbors_set = set()
         params = []
         r_params = []
+        weights = {} # each matrix is weighted with the degeneracy of its lattice vector
         index = -1
         for line in file:
             if not line.strip():
@@ -39,6 +40,9 @@ def load_tb(filename):
                 # start new matrix or return to existing one
                 pos = tuple([int(x) for x in parts])
                 neg_pos = tuple([-x for x in pos])
+                if pos not in weights:
+                    weights[pos] = 1 / degeneracy[len(weights)]
+                weight = weights[pos]
                 if pos not in neighbors_set:
                     if pos != neg_pos and neg_pos in neighbors_set:
                         # skip the entry if the adjungated matrix is already in neighbors
@@ -57,7 +61,7 @@ def load_tb(filename):
                 # new matrix entry (i,j) x+iy
                 i,j = int(parts[0]), int(parts[1])
                 x,y = float(parts[2]), float(parts[3])
-                params[index][i-1,j-1] = x + y*1j
+                params[index][i-1,j-1] = (x + y*1j) * weight
             elif len(parts) == 8:
                 if index < 0:
                     continue # skip this entry
@@ -66,9 +70,9 @@ def load_tb(filename):
                 x = float(parts[2]) + 1j*float(parts[3])
                 y = float(parts[4]) + 1j*float(parts[5])
                 z = float(parts[6]) + 1j*float(parts[7])
-                r_params[index][i-1,j-1,0] = x
-                r_params[index][i-1,j-1,1] = y
-                r_params[index][i-1,j-1,2] = z
+                r_params[index][i-1,j-1,0] = x * weight
+                r_params[index][i-1,j-1,1] = y * weight
+                r_params[index][i-1,j-1,2] = z * weight
             else:
                 raise ValueError(f"File has a format error in the tight bindng matrices in line \"{line.strip()}\"")
     # sort the neighbors by length
@@ -99,6 +103,7 @@ def load_hr(filename):
         neighbors = []
         neighbors_set = set()
         params = []
+        weights = {} # each matrix is weighted with the degeneracy of its lattice vector
         index = -1
         for line in file:
             if not line.strip():
@@ -108,6 +113,8 @@ def load_hr(filename):
                 # start new matrix or return to existing one
                 pos = tuple([int(x) for x in parts[:3]])
                 neg_pos = tuple([-x for x in pos])
+                if pos not in weights:
+                    weights[pos] = 1 / degeneracy[len(weights)]
                 if pos not in neighbors_set:
                     if pos != neg_pos and neg_pos in neighbors_set:
                         # skip the entry if the adjungated matrix is already in neighbors
@@ -121,7 +128,7 @@ def load_hr(filename):
                 # new matrix entry (i,j) x+iy
                 i,j = int(parts[3]), int(parts[4])
                 x,y = float(parts[5]), float(parts[6])
-                params[index][i-1,j-1] = x + y*1j
+                params[index][i-1,j-1] = (x + y*1j) * weights[pos]
             else:
                 raise ValueError(f"File has a format error in the tight bindng matrices in line \"{line.strip()}\"")
     # sort the neighbors by length
-- 
2.43.0


From 66f056484584c95356b7e83cb5aed5f073a4030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 014/100] fix: saving truncated big models and left changed
 printoptions behind on errors

---
 src/tight_binding_redweasel/bandstructure.py  | 32 +++++++++----------
 .../tight_binding_asym.py                     | 12 +++----
 2 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 0859f32..0fb9a72 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -1,3 +1,4 @@
+import sys
 import numpy as np
 from matplotlib import pyplot as plt
 from collections.abc import Callable
@@ -683,23 +684,20 @@ class BandStructureModel:
         if format not in {"python", "json", "wannier90"}:
             raise ValueError(
                 'supported formats are "python", "json" and "wannier90"')
-        opt = np.get_printoptions()
-        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21')
-        if format == "python":
-            with open(filename, "w") as file:
-                assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
-                file.write(repr(self.params_complex()) + ",\\\n")
-                file.write(repr(self.neighbors) + ",\\\n")
-                file.write(repr(self.sym.S) + ",\\\n")
-                file.write(repr(self.sym.inversion) + "\n")
-        elif format == "wannier90":
-            tb_fmt.save_hr(filename, self.neighbors, self.params_complex())
-        elif format == "json":
-            json_tb_format.save(filename, self.neighbors,
-                                self.params_complex())
-
-        # reset printoptions to what they were before
-        np.set_printoptions(**opt)
+        # the numbers have to be written in full, the previous printoptions are restored in any case
+        with np.printoptions(precision=None, suppress=False, floatmode="unique", threshold=sys.maxsize, legacy='1.21'):
+            if format == "python":
+                with open(filename, "w") as file:
+                    assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
+                    file.write(repr(self.params_complex()) + ",\\\n")
+                    file.write(repr(self.neighbors) + ",\\\n")
+                    file.write(repr(self.sym.S) + ",\\\n")
+                    file.write(repr(self.sym.inversion) + "\n")
+            elif format == "wannier90":
+                tb_fmt.save_hr(filename, self.neighbors, self.params_complex())
+            elif format == "json":
+                json_tb_format.save(filename, self.neighbors,
+                                    self.params_complex())
 
     @staticmethod
     def load(filename: str, format=None, cos_reduced=False, exp=True) -> 'BandStructureModel':
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 04ceb1f..3c92ed3 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -1,3 +1,4 @@
+import sys
 import numpy as np
 from typing import Self
 from collections.abc import Sequence, Iterable
@@ -256,13 +257,10 @@ class AsymTightBindingModel:
                 raise ValueError("unrecognised format for file " + filename)
         if format not in {"json"}:
             raise ValueError('only supported format is "json"')
-        opt = np.get_printoptions()
-        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21')
-        if format == "json":
-            json_tb_format.save(filename, self.H.neighbors, self.H.H_r)
-            # TODO save the S matrix part as well, maybe in a separate file? Or extend the format...
-
-        np.set_printoptions(**opt)  # reset printoptions
+        with np.printoptions(precision=None, suppress=False, floatmode="unique", threshold=sys.maxsize, legacy='1.21'):
+            if format == "json":
+                json_tb_format.save(filename, self.H.neighbors, self.H.H_r)
+                # TODO save the S matrix part as well, maybe in a separate file? Or extend the format...
 
     @staticmethod
     def load(filename: str, format=None) -> Self:
-- 
2.43.0


From 8f6677a1c741baeb73229d9bb57a128b89ad09d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 015/100] fix: HamiltonianSymmetry.copy always failed

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index cbb4012..8dc428f 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -58,11 +58,11 @@ class HamiltonianSymmetry:
         return sum((u.dim() for u in self.U))
     
     def copy(self) -> Self:
-        u_repr = HamiltonianSymmetry(self.sym.copy(), 1)
-        u_repr.inv = np.array(self.inv)
+        u_repr = HamiltonianSymmetry(self.sym.copy())
         u_repr.U = [u.copy() for u in self.U]
         u_repr.pos = [x.copy() for x in self.pos]
         u_repr.names = self.names.copy()
+        u_repr.translation = np.array(self.translation)
         return u_repr
     
     def __len__(self):
-- 
2.43.0


From c09f08785d0522a3b72fd6a5050d30faf85a1b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 016/100] fix: HamiltonianSymmetry.apply used wrong phases and
 always applied inversion

---
 .../hamiltonian_symmetry.py                   | 36 ++++++++++---------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 8dc428f..29f10eb 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -24,7 +24,7 @@ class HamiltonianSymmetry:
     There is an additional phase added to each individual unitary representation.
     The total symmetry can be expressed as:
 
-    `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(1+S)(r_1-r_2))`
+    `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(1-S^{-1})(r_2-r_1))`
 
     In solid state physics, the most important example for this
     is the **system hamiltonian**, which gives the class its name.
@@ -241,7 +241,7 @@ class HamiltonianSymmetry:
         """Apply the unitary transformation for one symmetry operation
         at the given k-point to the hermitian operator to get
 
-        `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(1+S)(r_1-r_2))`
+        `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(1-S^{-1})(r_2-r_1))`
 
         Args:
             k (arraylike): The spacial point
@@ -251,21 +251,24 @@ class HamiltonianSymmetry:
                                         (not covered by the index alone). Defaults to False.
 
         Returns:
-            arraylike(dim, dim): the resulting hermitian operator `U_S H(k) U^+_S exp(ik(1+S)(r_1-r_2))`
+            arraylike(dim, dim): the resulting hermitian operator `U_S H(k) U^+_S exp(2πik(1-S^{-1})(r_2-r_1))`
         """
         # apply inversion first, as that is the simple part
-        hamiltonian_inv = np.array(hamiltonian)
-        n1 = 0
-        for u1, r1 in zip(self.U, self.pos):
-            d1 = u1.dim()
-            u1 = 1 if u1.inv_split > 0 else -1
-            if u1 < 0:
-                # TODO use r1 !?!
-                hamiltonian_inv[n1:n1+d1,:] *= -1
-                hamiltonian_inv[:,n1:n1+d1] *= -1
-        # now apply the symmetry operation
-        result = np.zeros_like(hamiltonian)
+        hamiltonian_inv = np.array(hamiltonian, dtype=np.complex128)
+        k = np.asarray(k)
         s = self.sym.S[s_index]
+        if inversion:
+            s = -s
+            n1 = 0
+            for u1 in self.U:
+                d1 = u1.dim()
+                if u1.inv_split == 0:
+                    hamiltonian_inv[n1:n1+d1,:] *= -1
+                    hamiltonian_inv[:,n1:n1+d1] *= -1
+                n1 += d1
+        # now apply the symmetry operation
+        result = np.zeros_like(hamiltonian_inv)
+        dk = k - np.linalg.inv(s).T @ k
         n1 = 0
         for u1, r1 in zip(self.U, self.pos):
             d1 = u1.dim()
@@ -274,8 +277,7 @@ class HamiltonianSymmetry:
                 d2 = u2.dim()
                 u1_ = u1.U[s_index]
                 u2_ = u2.U[s_index]
-                fac = np.exp(2j*np.pi * k @ (r1 - s @ r2)) # TODO check again!
-                fac *= np.exp(-2j*np.pi * k @ (r2 - s @ r1))
+                fac = np.exp(2j*np.pi * dk @ (r2 - r1))
                 result[n1:n1+d1,n2:n2+d2] += fac * u1_ @ hamiltonian_inv[n1:n1+d1,n2:n2+d2] @ np.conj(u2_.T)
                 n2 += d2
             n1 += d1
@@ -541,7 +543,7 @@ class HamiltonianSymmetry:
             used_k = [k]
             for inv in [1, -1] if self.sym.inversion else [1]:
                 for s_index, s in enumerate(self.sym.S):
-                    k_ = s @ k * inv
+                    k_ = np.linalg.inv(s).T @ k * inv
                     # * this is why this algorithm is asymtotically slow
                     if np.min(np.linalg.norm(used_k - k_.reshape(1, -1), axis=-1)) < scale * 1e-6:
                         continue
-- 
2.43.0


From c79c5b7c7cb5a43e1baadddd07ffb9960d53040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 017/100] fix: the hamiltonian symmetrization broke the
 symmetry for partial neighbor orbits

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 29f10eb..fd8c2c5 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -374,6 +374,8 @@ class HamiltonianSymmetry:
                         u1_ = u1.U[k]
                         u2_ = u2.U[k]
                         j, mirror = neighbor_func(s @ (r + r2 - r1) - r2 + r1)
+                        if j is not None and self.sym.inversion and neighbor_func(-s @ (r + r2 - r1) - r2 + r1)[0] is None:
+                            j = None # the whole orbit is needed
                         if j is not None:
                             h = H_r3[j]
                             if mirror:
@@ -444,6 +446,8 @@ class HamiltonianSymmetry:
                     s_table = {}
                     for k, s in enumerate(self.sym.S):
                         j, mirror = neighbor_func(s @ (r - r1 + r2) + r1 - r2)
+                        if j is not None and self.sym.inversion and neighbor_func(-s @ (r - r1 + r2) + r1 - r2)[0] is None:
+                            j = None # the whole orbit is needed
                         if j is not None:
                             # reduce total_table by merging entries which have the same effect (based on the given self.U)
                             # doing this makes it go from 8448 to 8019 entries in my testcase
-- 
2.43.0


From 3e179a0ba2ac3d064e50b0c9c283cb304050d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 018/100] fix: multiplying two unitary representations always
 failed

---
 src/tight_binding_redweasel/unitary_representations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index eca4cbb..8d5c425 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -502,8 +502,7 @@ class UnitaryRepresentation:
             # this is only supported if one of the representations has inv_split at 0 or dim.
             if rhs.inv_split == 0 or rhs.inv_split == rhs.dim():
                 # case 1: kron is ordered correctly
-                for i in range(len(res)):
-                    res.U[i] = np.kron(self.U[i], res.U[i])
+                res.U = np.array([np.kron(u1, u2) for u1, u2 in zip(self.U, res.U)])
                 res.inv_split = self.inv_split * rhs.dim()
                 if rhs.inv_split == 0:
                     # flip inversion symmetry if self has it
@@ -512,8 +511,7 @@ class UnitaryRepresentation:
             elif self.inv_split == 0 or self.inv_split == self.dim():
                 # case 2: kron is flipped
                 # TODO make the kron in linalg do this loop correctly and generally
-                for i in range(len(res)):
-                    res.U[i] = np.kron(res.U[i], self.U[i])
+                res.U = np.array([np.kron(u2, u1) for u1, u2 in zip(self.U, res.U)])
                 res.inv_split *= self.dim()
                 if self.inv_split == 0:
                     # flip inversion symmetry if self has it
-- 
2.43.0


From 4b3dc34b1837276f89683d50c52825f9b6181295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 019/100] fix: pure inversion symmetry was ignored by the
 symmetrization

---
 src/tight_binding_redweasel/unitary_representations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 8d5c425..0b8b9c1 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -179,7 +179,7 @@ class UnitaryRepresentation:
         Returns:
             arraylike(N_r, dim, dim): The changed H_r, which respects the symmetry.
         """
-        if len(self.U) <= 1:
+        if len(self.U) <= 1 and not self.sym.inversion:
             return H_r # do nothing if self.U is empty, which stands for all U being the unit matrix
         result = np.zeros_like(H_r) # all U_S are real, so no worries about type here
         # add up all symmetries
@@ -244,7 +244,7 @@ class UnitaryRepresentation:
         Returns:
             function: A function which takes a `H_r` and returns the symmetrized version, just like `self.symmetrize` would.
         """
-        if len(self.U) <= 1:
+        if len(self.U) <= 1 and not self.sym.inversion:
             return lambda x: x # do nothing if self.U is empty, which stands for all U being the unit matrix
         assert len(self.sym.S) == len(self.U)
         neighbor_func = _sym.neighbor_function(neighbors)
-- 
2.43.0


From 2d79c01e456e871806c0411d08003c6d79d7598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 020/100] fix: UnitaryRepresentation.check_symmetry only looked
 at one point and ignored inversion

---
 src/tight_binding_redweasel/unitary_representations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 0b8b9c1..b838a8c 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -423,17 +423,18 @@ class UnitaryRepresentation:
         """
         # random sample points
         k_smpl = np.random.random((50, len(self.sym.S[0])))
-        k_smpl = ((0.0, 0.5, 0.0),)
+        inv_U = np.diag([1] * self.inv_split + [-1] * (self.dim() - self.inv_split))
         for k in k_smpl:
             values = []
             for s, u in zip(self.sym.S, self.U):
                 values.append(np.conj(u.T) @ hamilton([s @ k])[0] @ u)
+                if self.sym.inversion:
+                    values.append(inv_U @ np.conj(u.T) @ hamilton([-s @ k])[0] @ u @ inv_U)
             if np.linalg.norm(np.std(values, axis=0)) > 1e-7:
                 print("symmetry error")
                 #print(np.std(values, axis=0))
                 print((np.std(values, axis=0) > 1e-7).astype(np.int8)) # patterns more clear
                 return False
-        # TODO check inversion symmetry
         return True
     
     def subspaces(self):
-- 
2.43.0


From a909c7ed96650f6f773257d065a35817912efd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 021/100] fix: realize_symmetric_matrices used the adjungated
 operations and ignored inversion

---
 src/tight_binding_redweasel/unitary_representations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index b838a8c..fb6164f 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -394,10 +394,13 @@ class UnitaryRepresentation:
                     if np.min(np.linalg.norm(used_k - k_.reshape(1, -1), axis=-1)) < scale * 1e-6:
                         continue
                     used_k.append(k_)
+                    if inv < 0:
+                        # U_I commutes with all other U_S
+                        u = u * np.array([1] * self.inv_split + [-1] * (self.dim() - self.inv_split))
                     if inverse:
-                        full.append(u @ data @ np.conj(u.T))
-                    else:
                         full.append(np.conj(u.T) @ data @ u)
+                    else:
+                        full.append(u @ data @ np.conj(u.T))
                     full_k.append(k_)
         # sort by x, y, z compatible with reshape to meshgrid
         full_k = np.array(full_k)
-- 
2.43.0


From 5758d7a7040465546549ee7ce072e677881bcbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 022/100] fix: the symmetrizer of a unitary representation
 failed without inversion or without the neighbor 0

---
 .../unitary_representations.py                    | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index fb6164f..a10ba59 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -288,14 +288,15 @@ class UnitaryRepresentation:
             if c != len(self.sym.S):
                 raise ValueError("neighbors need to be choosen to fit the symmetry, however counting occurences has found the numbers " + str(count))
         # task_list_r0 should only contain one index, so check that and simplify
-        task_list_r0 = tuple(np.reshape(task_list_r0, (-1, 3)).T)
-        assert np.all(task_list_r0[0] == task_list_r0[1]) and np.all(task_list_r0[0][0] == task_list_r0[0])
-        r0_index = task_list_r0[0][0] if len(task_list_r0) else None
+        # (there is no center task without inversion symmetry or without the neighbor 0)
+        task_list_r0 = tuple(np.reshape(task_list_r0, (-1, 3)).astype(np.intp).T)
+        r0_index = task_list_r0[0][0] if len(task_list_r0[0]) else None
+        assert np.all(task_list_r0[0] == task_list_r0[1]) and np.all(r0_index == task_list_r0[0])
         # the rest can stay as is, just numpyify them
-        task_list_rinv = np.reshape(task_list_rinv, (-1, 3))
-        task_list_rinv = tuple(task_list_rinv[np.array([i in classes for i in task_list_rinv[:,0]])].T)
-        task_list_r = np.reshape(task_list_r, (-1, 3))
-        task_list_r = tuple(task_list_r[np.array([i in classes for i in task_list_r[:,0]])].T)
+        task_list_rinv = np.reshape(task_list_rinv, (-1, 3)).astype(np.intp)
+        task_list_rinv = tuple(task_list_rinv[np.array([i in classes for i in task_list_rinv[:,0]], dtype=bool)].T)
+        task_list_r = np.reshape(task_list_r, (-1, 3)).astype(np.intp)
+        task_list_r = tuple(task_list_r[np.array([i in classes for i in task_list_r[:,0]], dtype=bool)].T)
         class_copy = []
         class_invcopy = []
         for i, class_other in classes.items():
-- 
2.43.0


From 0147656f6f42ab74210b6e42851879f151c8d8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 023/100] fix: KPath accepts an explicit start point given as
 list or tuple

---
 src/tight_binding_redweasel/kpaths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 378fda8..4ffaacd 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -43,7 +43,7 @@ class KPath(Sequence):
         self.points = points  # no copy, be careful!
         self.indices = [0]  # symmetry point indices
         additional = []
-        if isinstance(start, list) or isinstance(start, tuple):
+        if isinstance(start, (list, tuple)) and (isinstance(start[0], str) or np.ndim(start[0]) > 0):
             # accept a list of points instead of start
             additional = start[1:]
             start = start[0]
-- 
2.43.0


From 7be2cb2913647e6fdddf2710ce6fe8dfc5bd68c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 024/100] fix: KPath.to leaves the names of the path alone if
 the point is rejected

---
 src/tight_binding_redweasel/kpaths.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 4ffaacd..e80156c 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -69,15 +69,16 @@ class KPath(Sequence):
             Self: self
         """
         if isinstance(point, str):
-            self.names.append(
-                name if name is not None else self.points[point][1])
+            if name is None:
+                name = self.points[point][1]
             point = self.points[point][0].reshape(1, -1)
         else:
-            self.names.append(
-                name if name is not None else "(" + " ".join(f"{x:.3f}" for x in point) + ")")
+            if name is None:
+                name = "(" + " ".join(f"{x:.3f}" for x in point) + ")"
             point = np.array(point).reshape(1, -1)
         assert len(point[0]) == len(
             self.path[0]), f"All points in the path need to have the same dimension. Tried to add a {len(point[0])}d point to a {len(self.path[0])}d path."
+        self.names.append(name)
         t = np.linspace(0, 1, N, endpoint=False).reshape(-1, 1) + 1 / N
         self.path.extend(self.path[-1] + t * (point - self.path[-1]))
         self.indices.append(len(self.path) - 1)
-- 
2.43.0


From c9946914761b9d091cc56eb628415afd7b618c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 025/100] fix: kpaths.interpolate wraps periodic data into the
 unit cell without a symmetry, too

---
 src/tight_binding_redweasel/kpaths.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index e80156c..daf5403 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -270,6 +270,9 @@ def interpolate(k_smpl, bands, sym: _sym.Symmetry = None, method="cubic", period
     assert len(k_smpl.shape) == 2, f"k_smpl should have shape (N, dim), but had shape {k_smpl.shape}"
     assert k_smpl.shape[0] == bands.shape[0], f"number of k_smpl and bands needs to match, but was k_smpl: ({np.shape(k_smpl)}), bands: ({np.shape(bands)})"
     kdim = len(k_smpl[0])
+    if sym is None and periodic:
+        # no symmetry, but the data needs to be wrapped into the unit cell
+        sym = _sym.Symmetry.none(kdim)
     if sym is not None:
         assert sym.dim() == kdim, f"dimensions of the symmetry and the k_smpl data don't match, symmetry: {sym.dim()}, k_smpl: {kdim}"
         k_smpl_orig = k_smpl
-- 
2.43.0


From c456a3af1cd9f5f47487c4937ba77e4f508f7b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 026/100] fix: windowed loss and error histogram consider every
 band offset (none was left for equal band counts)

---
 src/tight_binding_redweasel/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/loss.py b/src/tight_binding_redweasel/loss.py
index 733fdec..ff849f3 100644
--- a/src/tight_binding_redweasel/loss.py
+++ b/src/tight_binding_redweasel/loss.py
@@ -57,7 +57,7 @@ def model_windowed_loss(bands, ref_bands, min_energy, max_energy, allow_skipped_
         select = (min_energy <= ref_bands) & (ref_bands <= max_energy)
         cost = float("inf")
         # find out bandoffset by checking all bandoffsets and finding the one with the lowest error
-        for i in range(max_offset):
+        for i in range(max_offset + 1):
             if len(bands[0]) < len(ref_bands[0]):
                 diff = (ref_bands[:,i:i+compare_bands] - bands) * select[:,i:i+compare_bands]
             else:
@@ -98,7 +98,7 @@ def model_error_hist(bands, ref_bands, N=50, allow_skipped_bands=False):
         error = None
         ref_bands2 = ref_bands
         cost = float("inf")
-        for i in range(max_offset):
+        for i in range(max_offset + 1):
             if len(bands[0]) < len(ref_bands[0]):
                 diff = (ref_bands[:,i:i+compare_bands] - bands)
             else:
-- 
2.43.0


From b568340709a37fec9d8ac8ca5c449b7e00365897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 027/100] fix: the logger failed to print a perfect fit

---
 src/tight_binding_redweasel/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/logger.py b/src/tight_binding_redweasel/logger.py
index 8e6dfde..bc55a9f 100644
--- a/src/tight_binding_redweasel/logger.py
+++ b/src/tight_binding_redweasel/logger.py
@@ -42,7 +42,7 @@ class OptimisationLogger:
             # U+2581 = ▁ ... U+2588 = █
             scale = np.max(max_err)
             error_vis = "".join(
-                [" " if err/scale <= 1/16 else chr(0x2581 + round(err/scale * 8 - 1)) for err in max_err])
+                [" " if err <= scale/16 else chr(0x2581 + round(err/scale * 8 - 1)) for err in max_err])
             print(f"{iteration:3}: loss{loss:9.2e}{scale:8.1e}×[{error_vis}]", end="")
             if not self.update_line:
                 print()
-- 
2.43.0


From 08facacc802c499937c3c54e78ac48692f46f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 028/100] fix: interrupting optimize_cg between two statements
 left a half finished step in the model

---
 src/tight_binding_redweasel/bandstructure.py      | 11 ++++++-----
 src/tight_binding_redweasel/tight_binding_asym.py |  9 +++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 0fb9a72..76375c8 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -533,14 +533,15 @@ class BandStructureModel:
                 step = precond_func(conjugate_gradient_solve(A, b, err=float(np.linalg.norm(b)) * 1e-3, max_i=max_cg_iterations))
                 step *= 1 / len(k_smpl)
 
-                self.params -= step
+                # only assign the completed step, as it can be interrupted at any point
+                params = self.params - step
                 if self.symmetrizer is not None:
-                    self.params = self.symmetrizer(self.params)
+                    params = self.symmetrizer(params)
                 if keep_zeros:
-                    self.params *= H_r_mask
+                    params *= H_r_mask
                 # keep the 0 entry hermitian!
-                self.params[0] += np.conj(self.params[0].T)
-                self.params[0] /= 2
+                params[0] = (params[0] + np.conj(params[0].T)) / 2
+                self.params = params
             else:
                 iteration = iterations
         except KeyboardInterrupt:
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 3c92ed3..ff81a81 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -673,12 +673,13 @@ class AsymTightBindingModel:
                 step = precond(conjugate_gradient_solve(A, b, x0=x0, err=np.linalg.norm(b) * 1e-3, max_i=max_cg_iterations))
                 step *= 1 / len(k_smpl)
 
-                self.H.H_r -= step
+                # only assign the completed step, as it can be interrupted at any point
+                H_r = self.H.H_r - step
                 if keep_zeros:
-                    self.H.H_r *= H_r_mask
+                    H_r *= H_r_mask
                 # keep the 0 entry hermitian!
-                self.H.H_r[0] += np.conj(self.H.H_r[0].T)
-                self.H.H_r[0] /= 2
+                H_r[0] = (H_r[0] + np.conj(H_r[0].T)) / 2
+                self.H.H_r = H_r
                 log.add_data(iteration, loss, max_err)
             else:
                 iteration = iterations
-- 
2.43.0


From 77efdfe4f2ea89d68601434277b4fbbf99a97854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 029/100] fix: autofit_asym failed with additional bands

---
 src/tight_binding_redweasel/tight_binding_asym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index ff81a81..f8881c7 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -937,7 +937,7 @@ def autofit_asym(name, neighbors_src, k_smpl, ref_bands, band_weights, sym: Symm
         tb = AsymTightBindingModel.new(neighbors, add_bands_below + np.shape(ref_bands)[-1] + add_bands_above)
         tb.randomize(0.01)
         tb.normalize()
-        tb.H.H_r[0] = np.diag(ref_bands[0])
+        tb.H.H_r[0] = np.diag(np.pad(ref_bands[0], (add_bands_below, add_bands_above), mode="edge"))
         # now fit in 10 steps extending from the gamma point (0-point)
         log = logger.OptimisationLogger(update_line=False)
         for j in range(1, 11):
-- 
2.43.0


From 899249a1a585742589c91bde7a50855fe5f36a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:02 +0000
Subject: [PATCH 030/100] fix: optimize(train_S=True) overwrote H with the
 overlap and failed

---
 src/tight_binding_redweasel/tight_binding_asym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index f8881c7..1834317 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -448,7 +448,7 @@ class AsymTightBindingModel:
                 H = np.einsum("nkl,in->ikl", self.H.H_r, batch_f_i)
                 H += np.conj(np.swapaxes(H, -1, -2))
                 if train_S:
-                    H = np.einsum("nkl,in->ikl", self.S.H_r, batch_s_f_i)
+                    S = np.einsum("nkl,in->ikl", self.S.H_r, batch_s_f_i)
                     S += np.conj(np.swapaxes(S, -1, -2))
                 eigvals, eigvecs = geigh(H, S)
                 eigvals = eigvals[:, band_offset:][:, :len(batch_ref[0])]
-- 
2.43.0


From f261584e1f28c2c5dc19d2d54a3d41e8e919e94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:12 +0000
Subject: [PATCH 031/100] fix: optimize_cg failed with less k points than
 parameters (preconditioner)

---
 src/tight_binding_redweasel/bandstructure.py      | 6 ++++--
 src/tight_binding_redweasel/tight_binding_asym.py | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 76375c8..c75c30f 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -469,8 +469,10 @@ class BandStructureModel:
             # TODO add k_weights in here as well!
             # TODO it seems that preconditioning like this does not always result in an improvement... why?
             # E_mat = np.linalg.pinv(np.linalg.cholesky(np.einsum("nk,nl->kl", c_i, f_i))) * len(k_smpl)**.5
-            E_mat = np.linalg.cholesky(np.linalg.pinv(
-                np.einsum("nk,nl->kl", c_i, f_i))) * len(k_smpl)**.5
+            # E is the root of a pseudoinverse, as there might be less k points than parameters
+            E_val, E_mat = np.linalg.eigh(np.einsum("nk,nl->kl", c_i, f_i))
+            E_val[E_val < 1e-12 * E_val[-1]] = np.inf
+            E_mat = E_mat * (len(k_smpl) / E_val)**.5
             E_mat_c = np.conj(E_mat)
             # precompute a contraction that comes up often
             c_i_E_mat_c = np.einsum("nk,kl->nl", c_i, E_mat_c)
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 1834317..548a745 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -594,7 +594,10 @@ class AsymTightBindingModel:
             # TODO add k_weights in here as well!
             # TODO it seems that preconditioning like this does not always result in an improvement... why?
             #E_mat = np.linalg.pinv(np.linalg.cholesky(np.einsum("nk,nl->kl", c_i, f_i))) * len(k_smpl)**.5
-            E_mat = np.linalg.cholesky(np.linalg.pinv(np.einsum("nk,nl->kl", c_i, f_i))) * len(k_smpl)**.5
+            # E is the root of a pseudoinverse, as there might be less k points than parameters
+            E_val, E_mat = np.linalg.eigh(np.einsum("nk,nl->kl", c_i, f_i))
+            E_val[E_val < 1e-12 * E_val[-1]] = np.inf
+            E_mat = E_mat * (len(k_smpl) / E_val)**.5
             E_mat_c = np.conj(E_mat)
             # precompute a contraction that comes up often
             c_i_E_mat_c = np.einsum("nk,kl->nl", c_i, E_mat_c)
-- 
2.43.0


From 5613bbde48b1a662a52012081b578804042a3843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:12 +0000
Subject: [PATCH 032/100] fix: interrupting an optimization before its first
 iteration raised UnboundLocalError

---
 src/tight_binding_redweasel/bandstructure.py      | 2 ++
 src/tight_binding_redweasel/tight_binding_asym.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index c75c30f..772d6f6 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -330,6 +330,7 @@ class BandStructureModel:
         last_add = np.zeros_like(self.params)
         self.normalize()
         last_loss = float("inf")
+        iteration = 0
         try:
             for iteration in range(iterations):
                 batch = k_smpl[iteration % batch_div::batch_div]
@@ -491,6 +492,7 @@ class BandStructureModel:
 
         self.normalize()
         loss = float("inf")
+        iteration = 0
         try:
             mat_t_path = combined_path = None
             for iteration in range(iterations):
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 548a745..e3fb2ce 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -421,6 +421,7 @@ class AsymTightBindingModel:
         last_add = np.zeros_like(self.H.H_r)
         last_add_s = np.zeros_like(self.S.H_r)
         last_loss = float("inf")
+        iteration = 0
         try:
             for iteration in range(iterations):
                 batch = k_smpl[iteration % batch_div::batch_div]
@@ -622,6 +623,7 @@ class AsymTightBindingModel:
 
         # loss = self.loss(k_smpl, ref_bands, band_, band_offset)
         loss = float("inf")
+        iteration = 0
         try:
             mat_t_path = combined_path = None
             for iteration in range(iterations):
-- 
2.43.0


From a02d91a4957b395b708b9d7327ddac4a99183a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:12 +0000
Subject: [PATCH 033/100] fix: optimize_cg diverged at stationary points

---
 src/tight_binding_redweasel/bandstructure.py      | 4 ++++
 src/tight_binding_redweasel/tight_binding_asym.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 772d6f6..73a1890 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -524,6 +524,10 @@ class BandStructureModel:
                 diff *= weights
                 # TODO test contracting eigvecs and eigvecs_c beforehand, because that combination is used everywhere
                 b = np.einsum("nk,nid,njd,nd->kij", c_i_E_mat_c, eigvecs, eigvecs_c, diff, optimize=mat_t_path)
+                if np.linalg.norm(b) < 1e-9 * np.linalg.norm(diff):
+                    # stationary point: b is just rounding noise, which might not be in the range of A
+                    log.add_message("converged")
+                    break
                 if combined_path is None:
                     # combined_path, info = np.einsum_path("nk,nid,njd,nd,nad,nbd,onp,opab->kij", c_i_E_mat_c, eigvecs, eigvecs_c, weights, eigvecs_c, eigvecs, [f_i, f_i], [b, b], optimize="optimal")
                     # print(combined_path, info)
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index e3fb2ce..eaec916 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -658,6 +658,10 @@ class AsymTightBindingModel:
                 diff *= weights
                 # TODO test contracting eigvecs and eigvecs_c beforehand, because that combination is used everywhere
                 b = np.einsum("nk,nid,njd,nd->kij", c_i_E_mat_c, eigvecs, eigvecs_c, diff, optimize=mat_t_path)
+                if np.linalg.norm(b) < 1e-9 * np.linalg.norm(diff):
+                    # stationary point: b is just rounding noise, which might not be in the range of A
+                    log.add_message("converged")
+                    break
                 if combined_path is None:
                     #mat_path = np.einsum_path("nid,njd,nij->nd", eigvecs_c, eigvecs, np.einsum("nk,kij->nij", f_i, b), optimize="optimal")[0]
                     #combined_path = np.einsum_path("nk,nid,njd,nad,nbd,nab,kl->lij", c_i, eigvecs, eigvecs_c, eigvecs_c, eigvecs, np.einsum("nk,kij->nij", f_i, b), E_mat_c, optimize="optimal")[0]
-- 
2.43.0


From fcde5e2b13f83b38ac17668938d1831907d69769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 034/100] fix: conjugate_gradient_solve went one step too far,
 which diverged when the solution was exact

---
 src/tight_binding_redweasel/linalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 9dd01c3..74c0c71 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -301,6 +301,10 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
         max_i = int(np.prod(np.shape(x)) * 2.5) + 1
     i = 0
     while True:
+        if r_sqr <= err**2:
+            # print("cg", i)
+            # stop before the step, as the direction is just rounding noise if r = 0, which can be (nearly) in the kernel of A
+            return x
         A_d = A(d)
         d_sqr = np.real(np.sum(d.conj() * A_d))  # real because A is positive definite!
         if d_sqr == 0:
@@ -308,9 +312,6 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
             return x
         alpha = r_sqr / d_sqr
         x -= alpha * d
-        if r_sqr <= err**2:
-            # print("cg", i)
-            return x
         if i > max_i:
             # print(f"conjugate gradient didn't converge ({r_sqr**.5:.2e} > {err:.2e})")
             return x
-- 
2.43.0


From 0fbf50e5790745653f4136dcc2dc42ba23e82a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 035/100] fix: refined band ranges never exclude sampled
 energies

---
 src/tight_binding_redweasel/density_of_states.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 9c2eb21..0ab8edc 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -290,7 +290,9 @@ class DensityOfStates:
                         break  # don't follow too big steps (e.g. at band crossings)
                     max_k -= step
                 # compute min/max values and store them
-                self.bands_range.append(tuple(model(np.array([min_k, max_k]))[:, i]))
+                # (never exclude sampled energies, as the steps might not lead to the global extrema)
+                min_e, max_e = model(np.array([min_k, max_k]))[:, i]
+                self.bands_range.append((min(min_e, np.min(self.bands[..., i])), max(max_e, np.max(self.bands[..., i]))))
         else:
             self.bands_range = [(np.min(self.bands[..., i]), np.max(self.bands[..., i])) for i in range(self.bands.shape[-1])]
         # TODO add bands_range_k_points, because that is useful information in some contexts
-- 
2.43.0


From bb979cfaee9de94bffb404ca8cd7e0d57afe0e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 036/100] fix: naive fermi energy lies between the highest
 filled and the lowest empty state

---
 src/tight_binding_redweasel/density_of_states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 0ab8edc..8fba3ac 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -180,7 +180,8 @@ def int_poly(x0, x1, a, b, c):
 
 def naive_fermi_energy(bands, electrons):
     i = round(np.prod(np.shape(bands)[:-1]) * electrons)
-    return np.mean(np.sort(np.ravel(bands))[i:i + 2])
+    # between the highest filled and the lowest empty state
+    return np.mean(np.sort(np.ravel(bands))[max(i - 1, 0):i + 1])
 
 
 def naive_energy(bands, mu, T, spin_factor=2):
-- 
2.43.0


From f289b8b4747acd60ed09642a96b569ec8c883bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 037/100] fix: sign of the right extrapolation in convolve_ddf

---
 src/tight_binding_redweasel/density_of_states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 8fba3ac..a4360d3 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -112,10 +112,10 @@ def convolve_ddf(x, energy_smpl: np.ndarray, states: np.ndarray, beta: float, ex
     if extrapolation == 'flat':
         if extrapolation_point is None:
             s += df(x - energy_smpl[0]) * states[..., 0]
-            s += df(energy_smpl[-1] - x) * states[..., -1]
+            s -= df(energy_smpl[-1] - x) * states[..., -1]
         else:
             # assume N(mu) starts at 0 and ends at N(extrapolation_point[0]) = extrapolation_point[1]
-            s += df(extrapolation_point[0] - x) * extrapolation_point[1]
+            s -= df(extrapolation_point[0] - x) * extrapolation_point[1]
     return s
 
 
-- 
2.43.0


From 3d7bd39585c6401a4aad15334e82322a5df5def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 038/100] fix: chemical potential of insulators at low
 temperatures is not NaN

---
 src/tight_binding_redweasel/density_of_states.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index a4360d3..3a9a194 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -128,6 +128,9 @@ def secant(y, f, a, b, tol=1e-16, max_i=100):
     """
     fa = f(a) - y
     fb = f(b) - y
+    if fa == fb:
+        # no slope to follow (e.g. both inside of a gap)
+        return a if fa == 0 else b
     for i in range(max_i):
         x = (a * fb - b * fa) / (fb - fa)
         if a == x or b == x:
-- 
2.43.0


From 7ad4d01cae0880f8b1a4712880abf5cc522576bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 039/100] fix: fermi energy search is safeguarded by bisection

---
 .../density_of_states.py                      | 35 ++++++++++++++-----
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 3a9a194..df08c45 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -465,10 +465,7 @@ class DensityOfStates:
         Args:
             electrons (float): The number of valence electrons per cell.
             tol (float, optional): The precision of the root-finding procedure. Defaults to 1e-8.
-            maxsteps (int, optional): The maximal number of steps for the root-finding procedure. Defaults to 30.
-
-        Raises:
-            ValueError: If the root search failed.
+            maxsteps (int, optional): The maximal number of newton steps for the root-finding procedure. Defaults to 30.
 
         Returns:
             float: The Fermi-energy.
@@ -491,15 +488,37 @@ class DensityOfStates:
         # first approximation from a very rough states curve
         e_smpl, states_smpl, _ = self.full_curve(N=2)
         e_index = list(states_smpl > electrons).index(True) - 1
+        if e_index < 0:
+            return e_smpl[0]  # in a flat lowest band
         fermi_energy = (electrons - states_smpl[e_index]) / (states_smpl[e_index + 1] - states_smpl[e_index]) * (e_smpl[e_index + 1] - e_smpl[e_index]) + e_smpl[e_index]
         # now do a couple newton steps to find the exact value
+        # and keep a bracket around the solution, to bisect it if the newton step can't be used (e.g. density = 0)
+        lower, upper = e_smpl[e_index], e_smpl[e_index + 1]
         for _ in range(maxsteps):
             states, density = self.states_density(fermi_energy)
-            # TODO handle density = 0 in metals
-            fermi_energy -= (states - electrons) / density
-            if abs((states - electrons) / density) <= tol:
+            if states == electrons:
                 return fermi_energy
-        raise ValueError(f"root search didn't converge in {maxsteps} steps. {abs((states - electrons) / density)} > {tol}.")
+            elif states > electrons:
+                upper = fermi_energy
+            else:
+                lower = fermi_energy
+            next_energy = fermi_energy - (states - electrons) / density if density > 0 else np.inf
+            if not lower <= next_energy <= upper:
+                next_energy = (lower + upper) / 2
+            step = abs(next_energy - fermi_energy)
+            fermi_energy = next_energy
+            if step <= tol:
+                return fermi_energy
+        # the newton steps converge slowly if the density vanishes at the solution, but the bisection always converges
+        while upper - lower > tol:
+            fermi_energy = (lower + upper) / 2
+            if fermi_energy == lower or fermi_energy == upper:
+                break  # rounding limit
+            if self.states_below(fermi_energy) > electrons:
+                upper = fermi_energy
+            else:
+                lower = fermi_energy
+        return (lower + upper) / 2
 
     def bandgap(self, electrons: float) -> float:
         """Return the (already precomputed) bandgap.
-- 
2.43.0


From e80d016ff62611fb3f3907d9aebf06ccf2e74433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 040/100] fix: energy of bands which lie completely below the
 chemical potential

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index df08c45..639948f 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -635,7 +635,7 @@ class DensityOfStates:
                 # Romberg extrapolation with just one more step -> ~ Simpson rule.
                 # this assumes that the density is continuous, which is the case for 3D bandstructures.
                 int2 = np.sum((states[:-2:2] + states[2::2])/2 * (e_smpl[2::2] - e_smpl[:-2:2]))
-                energy += mu * states[-1] - (int1 + (int1 - int2)/(4 - 1))
+                energy += e_smpl[-1] * states[-1] - (int1 + (int1 - int2)/(4 - 1))
         # TODO allow more than one T to be used!
         if T <= 0.0:
             # this part is pretty well convergent
-- 
2.43.0


From 29ae50224dd3a4879df35db540bccf6f5d9321bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 041/100] fix: thermal energy for chemical potentials at or
 beyond the band edges

---
 src/tight_binding_redweasel/density_of_states.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 639948f..f6e0ca7 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -198,10 +198,11 @@ def naive_energy(bands, mu, T, spin_factor=2):
 def _samples(e0, e1, mu, beta, N):
     # sample a range e0 to e1 in such a way, that an integral over -df/de has equal weights for each point. (importance sampling)
     # for numerical stability, it is required to limit e0 and e1 here
-    e0 = np.maximum(mu - 30 / beta, e0)
-    e1 = np.minimum(mu + 30 / beta, e1)
+    e0 = np.clip(e0, mu - 30 / beta, mu + 30 / beta)
+    e1 = np.clip(e1, mu - 30 / beta, mu + 30 / beta)
     #return np.log(1 / (1e-16 + np.linspace(scipy.special.expit(-beta * (e0 - mu)), scipy.special.expit(-beta * (e1 - mu)), N)) - 1 + 1e-16) / beta + mu
-    return -scipy.special.logit(np.concatenate([np.linspace(scipy.special.expit(-beta * (e0 - mu)), 0.5, N//2, endpoint=False), np.linspace(0.5, scipy.special.expit(-beta * (e1 - mu)), (N+1)//2)])) / beta + mu
+    # mu can be outside of the range or on its border -> sort and remove duplicates
+    return np.unique(-scipy.special.logit(np.concatenate([np.linspace(scipy.special.expit(-beta * (e0 - mu)), 0.5, N//2, endpoint=False), np.linspace(0.5, scipy.special.expit(-beta * (e1 - mu)), (N+1)//2)])) / beta + mu)
 
 class DensityOfStates:
     """This class represents the density of states for a given 3D bandstructure model.
@@ -669,7 +670,7 @@ class DensityOfStates:
                 return -simple_term + a / 2 * int_poly((e0 - mu) * beta, (e1 - mu) * beta, 1/beta**2, 2*mu/beta, mu*mu)
             s = np.sum(segment(e_smpl[:-1], e_smpl[1:], states[:-1], states[1:]))
             # add segments/other functions as extrapolation on both side here to get correct high temperature behavior
-            s += segment(e_smpl[-1], e_smpl[-1] + 8. / beta, self.model_bandcount(), self.model_bandcount()) # flat N(e) above the energy range
+            s += segment(e_smpl[-1], e_smpl[-1] + 30. / beta, self.model_bandcount(), self.model_bandcount()) # flat N(e) above the energy range
             return s
         # calculate custom distribution for precision/cost balance
         e_smpl = _samples(e0, e1, mu, beta, N)
-- 
2.43.0


From b88639e38ae5e6857b4eae55610c0250c9451a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 042/100] fix: positive weights of fermi surface samples for
 left-handed lattices

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index f6e0ca7..169e21a 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -797,7 +797,7 @@ class DensityOfStates:
             # HACK: scale up the weights to fill the entire briloun zone.
             # The assumption here is, that if the k_range is anything but [-0.5,0.5]^3,
             # then that is, because the other parts are equal and can be reproduced by symmetry
-            w *= np.linalg.det(self.A) / self.crystal_volume
+            w *= abs(np.linalg.det(self.A)) / self.crystal_volume
             if improved_points:
                 if "bands_grad" in dir(self.model):
                     # if available, evaluate the model with bands and exact gradients (way more precise!)
-- 
2.43.0


From 41312ee5315084e824229e69d0fc9717c809ad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 043/100] fix: points of improved fermi surface weights stay at
 the requested energy

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 169e21a..d7f2990 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -849,7 +849,7 @@ class DensityOfStates:
             if "bands_grad" in dir(self.model):
                 # if available, evaluate the model with bands and exact gradients (way more precise!)
                 bands, grads = self.model.bands_grad(points)
-                bands = np.take_along_axis(bands, band_indices[:, None], axis=-1)[..., 0]
+                bands = np.take_along_axis(bands, band_indices[:, None], axis=-1)[..., 0] - energy
                 grads = np.take_along_axis(grads, band_indices[:, None, None], axis=-1)[..., 0]
                 # do another newton step here for free! (Assume the gradient is constant)
                 points -= grads * (bands / (1e-20 + np.linalg.norm(grads, axis=-1)**2))[..., None]
-- 
2.43.0


From 5cd1dcd7cebb04ad30ce1c5df75059fcea2510a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 044/100] fix: thermal energy uses the slope of the sampled
 states at the chemical potential

---
 src/tight_binding_redweasel/density_of_states.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index d7f2990..fa814bf 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -675,7 +675,9 @@ class DensityOfStates:
         # calculate custom distribution for precision/cost balance
         e_smpl = _samples(e0, e1, mu, beta, N)
         states = np.array([self.states_below(energy) for energy in e_smpl])
-        return (energy + accumulate(e_smpl, states) - self.density(mu) * mu*mu/2) * spin_factor
+        i = np.clip(np.searchsorted(e_smpl, mu), 1, len(e_smpl) - 1)  # e_smpl[i-1] < mu <= e_smpl[i]
+        rho = (states[i] - states[i - 1]) / (e_smpl[i] - e_smpl[i - 1])
+        return (energy + accumulate(e_smpl, states) - rho * mu*mu/2) * spin_factor
 
     def seebeck(self, electrons: float, T_smpl: Iterable[float], N=30, h=1e-4) -> np.ndarray:
         """The derivative of the chemical potential w.r.t. temperature.
-- 
2.43.0


From 875365216a1111294153b7625e7782d8065ac455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 045/100] fix: fermi energy search does not stop at spikes of
 the density

---
 src/tight_binding_redweasel/density_of_states.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index fa814bf..16caaa1 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -507,9 +507,14 @@ class DensityOfStates:
             if not lower <= next_energy <= upper:
                 next_energy = (lower + upper) / 2
             step = abs(next_energy - fermi_energy)
-            fermi_energy = next_energy
             if step <= tol:
-                return fermi_energy
+                # only trust small steps, if the solution is really close, as the density can be huge in flat parts of the bands
+                probe = fermi_energy - 2 * tol if states > electrons else fermi_energy + 2 * tol
+                if not lower < probe < upper or (self.states_below(probe) > electrons) != (states > electrons):
+                    return next_energy
+                lower, upper = (lower, probe) if states > electrons else (probe, upper)
+                next_energy = (lower + upper) / 2
+            fermi_energy = next_energy
         # the newton steps converge slowly if the density vanishes at the solution, but the bisection always converges
         while upper - lower > tol:
             fermi_energy = (lower + upper) / 2
-- 
2.43.0


From 4c2017bb30d5f9b053dae0a5d1cea017c371b7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 046/100] fix: spheres with gradients for left-handed lattices

---
 src/tight_binding_redweasel/smearing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/smearing.py b/src/tight_binding_redweasel/smearing.py
index 8e5bcbd..b354221 100644
--- a/src/tight_binding_redweasel/smearing.py
+++ b/src/tight_binding_redweasel/smearing.py
@@ -489,8 +489,8 @@ class SphereSmearing(SmearingMethod):
         else:
             # gradients are in k_space, we want them to remain there,
             # as the lattice is assumed to be well spaced in reciprocal space.
-            # that means the total volume is not 1, but np.linalg.det(B).
-            volume = np.linalg.det(B)
+            # that means the total volume is not 1, but abs(np.linalg.det(B)).
+            volume = abs(np.linalg.det(B))
             cell_volume = volume / len(positions[...,0].flat)
             # to counteract that, one can scale the gradients
             self.grads = np.moveaxis(grads, -1, 0) * cell_volume**(1/3)
-- 
2.43.0


From 1b49297a445d50735954d9e4d11cfd1c424f3178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 047/100] fix: chemical potential for finely spaced
 temperatures

---
 src/tight_binding_redweasel/density_of_states.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 16caaa1..3595f0d 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -586,7 +586,7 @@ class DensityOfStates:
         T_smpl = np.asarray(T_smpl).reshape(-1)
         if np.max(T_smpl) >= T_lin:
             states_lin = np.array([self.states_below(energy) for energy in energy_smpl_lin])
-        beta = -10000.0  # invalid value
+        smpl_beta = -10000.0  # invalid value
         res = []
         for T in T_smpl:
             if T <= 0:
@@ -596,11 +596,11 @@ class DensityOfStates:
                 res.append(secant(electrons, lambda x: convolve_df(x, energy_smpl_lin, states_lin, beta, extrapolation='flat'), fermi_energy, fermi_energy + 0.1, tol, maxsteps))
             else:
                 new_beta = 1 / (k_B * T)  # 1/eV
-                if abs(beta - new_beta) / new_beta > 5e-2:
+                if abs(smpl_beta - new_beta) / new_beta > 5e-2:
                     # recalculate distribution for precision
                     beta = 0.25 / (k_B * T)  # 1/eV
                     energy_smpl = _samples(e0, e1, fermi_energy, beta, N)
-                    beta = new_beta
+                    smpl_beta = new_beta
                     states = np.array([self.states_below(energy) for energy in energy_smpl])
                 # keep distribution if it doesn't cause too big errors (performance)
                 beta = new_beta
-- 
2.43.0


From 9c2f131da4953a290b61449d8a53f23b78097272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 048/100] fix: seebeck coefficient for zero temperature only

---
 src/tight_binding_redweasel/density_of_states.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 3595f0d..80b61d6 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -701,6 +701,8 @@ class DensityOfStates:
         T_smpl = np.asarray(T_smpl)
         subset = np.arange(len(T_smpl))[T_smpl > 0]
         T_ = T_smpl[subset]
+        if len(T_) == 0:
+            return np.zeros(len(T_smpl))
         inv_order = np.zeros(len(T_smpl), dtype=int)
         inv_order[subset] = np.arange(len(T_))
         assert h < np.min(T_), "h needs to be bigger than the smallest positive temperature"
-- 
2.43.0


From 7cac5848ac3762555e47e922eebb6c6e359e3cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 049/100] fix: transport coefficients for left-handed lattices

---
 src/tight_binding_redweasel/bulk_properties.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 3751b84..644955b 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -374,7 +374,7 @@ class KIntegral:
         Returns:
             (ndarray[max_a+1, N_T, N_d, N_d]): (L^(0), L^(1), L^(2)). Results L^(0) in 1/(Ohm*m)/s, L^(1) in J/C/(Ohm*m)/s, L^(2) in (J/C)^2/(Ohm*m)/s.
         """
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         if isinstance(tau, float):
             tau_v = tau
             tau = lambda _: tau_v
@@ -386,7 +386,7 @@ class KIntegral:
 
     # conductivity divided by the electron scattering time tau. Assuming constant tau. Result in 1/(Ohm*m*s)
     def drude_factor(self, A: np.ndarray, spin_factor=2):
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         I = self.integrate_df_A(A, lambda _e, v, _k: v[:, None, :] * v[:, :, None], hessians=False)[0]
         D = spin_factor * elementary_charge**2 * I / eV / V_EZ
         return D  # result is in 1/(Ohm*m)/s
@@ -407,7 +407,7 @@ class KIntegral:
         # In reality the relaxation times are different over k-space or even just for different spins in the same band. (PhysRev.97.647)
         # Somehow their units don't match the expected result unit, so I removed the division by the speed of light to make it work.
         # I canceled one e from sigma_xx with e^2 from sigma_xyz
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         # sigma_xyz = elementary_charge/c/eV * self.integrate_df_A(A, lambda _e, v, h, _k: (v[:,0]**2*h[:,1,1] - v[:,0]*v[:,1]*h[:,1,0]), hessians=True)
         I = self.integrate_df_A(A, lambda _e, v, h, _k: (v[:, 0]**2 * h[:, 1, 1] - v[:, 0] * v[:, 1] * h[:, 1, 0]), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, _k: v[:, 0]**2, hessians=False)[0]
@@ -421,7 +421,7 @@ class KIntegral:
         # PhysRevB.45.10886 Hall effect formula with constant relaxation time over k.
         # In reality the relaxation times are different over k-space or even just for different spins in the same band. (PhysRev.97.647)
         # I canceled one e from sigma_0 with e^2 from sigma_H
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         I = self.integrate_df_A(A, lambda _e, v, h, _k: np.einsum("ni,nij,nj->n", v, h, v) - np.einsum("nj,nj,nii->n", v, v, h), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, _k: (v**2).sum(-1), hessians=False)[0]
         sigma_H = elementary_charge / eV * spin_factor / 6 * I
@@ -450,7 +450,7 @@ class KIntegral:
         """
         # From the book "C. Hurd, The Hall Coeffcient of Metals and Alloys (Plenum, New York, 1972)"
         # Assuming constant relaxation time for now -> independent of it
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         if isinstance(tau, float):
             tau_v = tau
             tau = lambda _: tau_v
-- 
2.43.0


From b48f8b123d4e2ab9df733f7388aa2f37054f5ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 050/100] fix: integrals for insulators at zero temperature

---
 src/tight_binding_redweasel/bulk_properties.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 644955b..ae520bb 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -209,10 +209,10 @@ class KIntegral:
         else:
             if self.metal:
                 self.e_smpl = np.array([self.fermi_energy])
-                self.integration_weights = np.array([[1]])
+                self.integration_weights = np.ones((len(T), 1))
             else:
                 # no e_smpl, all integrals are empty for T=0
-                pass
+                self.e_smpl = []
         self.e_smpl = np.array(self.e_smpl)
         for e in self.e_smpl:
             k_smpl, band_indices, weights, _ = dos_model.fermi_surface_samples(e, improved_points=improved_points, improved_weights=False, normalize=None)
@@ -296,14 +296,14 @@ class KIntegral:
                 I_moments.append(I)
             return np.array(I_moments)
         else:
-            if len(self.beta) == 1 and self.beta[0] > 1e16:
+            if np.all(self.beta > 1e16):
                 # no fermi surface!
                 # to get the output shape right, evaluate g at one point
                 if hessians:
                     I = 0.0 * np.asanyarray(g(self.mu, np.zeros((1, 3)), np.eye(3)[None], np.zeros((1, 3))))
                 else:
                     I = 0.0 * np.asanyarray(g(self.mu, np.zeros((1, 3)), np.zeros((1, 3))))
-                return np.array([[I]])
+                return np.zeros((moments + 1, len(self.beta)) + I.shape[1:])
             # TODO see comment in __init__
             raise NotImplementedError("integrals for isolators (semiconductors) are currently not implemented")
 
-- 
2.43.0


From 0e77bb628d98031bbb128c6c611ce4019a800bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 051/100] fix: integrals with a single Fermi surface at finite
 temperature

---
 src/tight_binding_redweasel/bulk_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index ae520bb..95c0840 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -133,7 +133,7 @@ def _integration_points(fermi_energy: float, T_min: float, T_max: float, N: int)
 def _integration_weights(x: np.ndarray, beta_j: np.ndarray, mu_j: np.ndarray, E_min: float, E_max: float, rtol=1e-4):
     assert len(x) % 2 == 1
     if len(x) == 1:
-        return np.array([1.0])
+        return x, np.ones((len(beta_j), 1))
     b = [2 * scipy.special.zeta(n) * (1 - 2**(1 - n)) if n % 2 == 0 else 0 for n in range(len(x))]
     I_nj = lambda n, j: beta_j[j]**(-n) * b[n]
     # sum_i X_ijn w_ij = I_jn
-- 
2.43.0


From bbd9e37714c37773fbd1c192f166142183d1a5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 052/100] fix: k-dependent scattering times in the hall
 conductivity

---
 src/tight_binding_redweasel/bulk_properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 95c0840..13de068 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -454,8 +454,8 @@ class KIntegral:
         if isinstance(tau, float):
             tau_v = tau
             tau = lambda _: tau_v
-        tau_1 = (lambda v, _: v) if tau is None else (lambda v, k: v * tau(k))
-        tau_2 = (lambda v, _: v) if tau is None else (lambda v, k: v * tau(k)**2)
+        tau_1 = (lambda v, _: v) if tau is None else (lambda v, k: v * np.reshape(tau(k), (-1, 1, 1)))
+        tau_2 = (lambda v, _: v) if tau is None else (lambda v, k: v * np.reshape(tau(k), (-1, 1, 1, 1))**2)
         I = self.integrate_df_A(A, lambda _e, v, h, k: tau_2(np.einsum("yds,na,ns,nbd->naby", antisym_tensor, v, v, h), k), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, k: tau_1(v[:, None, :] * v[:, :, None], k), hessians=False)[0]
         sigma3 = 1 / V_EZ * elementary_charge**3 / eV * spin_factor * I
-- 
2.43.0


From 348b1c367e02da8fd8a80f75fbe2768c39d81d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 053/100] fix: accept any number as scattering time

---
 src/tight_binding_redweasel/bulk_properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 13de068..fd39152 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -375,7 +375,7 @@ class KIntegral:
             (ndarray[max_a+1, N_T, N_d, N_d]): (L^(0), L^(1), L^(2)). Results L^(0) in 1/(Ohm*m)/s, L^(1) in J/C/(Ohm*m)/s, L^(2) in (J/C)^2/(Ohm*m)/s.
         """
         V_EZ = abs(np.linalg.det(A * 1e-10))
-        if isinstance(tau, float):
+        if tau is not None and not callable(tau):
             tau_v = tau
             tau = lambda _: tau_v
         tau_1 = (lambda v, _: v) if tau is None else (lambda v, k: v * np.reshape(tau(k), (-1, 1, 1)))
@@ -451,7 +451,7 @@ class KIntegral:
         # From the book "C. Hurd, The Hall Coeffcient of Metals and Alloys (Plenum, New York, 1972)"
         # Assuming constant relaxation time for now -> independent of it
         V_EZ = abs(np.linalg.det(A * 1e-10))
-        if isinstance(tau, float):
+        if tau is not None and not callable(tau):
             tau_v = tau
             tau = lambda _: tau_v
         tau_1 = (lambda v, _: v) if tau is None else (lambda v, k: v * np.reshape(tau(k), (-1, 1, 1)))
-- 
2.43.0


From 1e319a566d441d0582c83710460eb7d41f77620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 054/100] fix: hessians of free electrons have the shape of
 their bands

---
 src/tight_binding_redweasel/bulk_properties.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index fd39152..8a930d5 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -498,10 +498,11 @@ class FreeElectrons:
         k_smpl = np.asarray(k_smpl)[:, :, None] - self.k_neighbors[None, :, :]
         bands = np.linalg.norm(k_smpl, axis=-2)**2
         grad = 2 * k_smpl
-        hess = np.array([np.eye(3) * 2] * len(self.k_neighbors[0])).T
+        hess = np.broadcast_to(2 * np.eye(3)[:, :, None], k_smpl.shape[:1] + (3, 3, bands.shape[1]))
         order = np.argsort(bands, axis=-1)
         if self.limit_count:
             order = order[:, :self.limit_count]
         bands = np.take_along_axis(bands, order, axis=-1)
         grad = np.take_along_axis(grad, order[:, None, :], axis=-1)
-        return self.fac * bands, self.fac * grad, self.fac * hess[None, ...]
+        hess = np.take_along_axis(hess, order[:, None, None, :], axis=-1)
+        return self.fac * bands, self.fac * grad, self.fac * hess
-- 
2.43.0


From 9c0a9494db32d84687433184822018a5355b3af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:12 +0000
Subject: [PATCH 055/100] fix: doubled comma in the input of relax

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index f157566..4b91b89 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -927,7 +927,7 @@ class QECrystal:
     outdir='./qe-data/',
     prefix='{self.name}',
     tstress = .true.,
-    tprnfor = .true.,,
+    tprnfor = .true.,
     disk_io='low',
 /
 &system
-- 
2.43.0


From e6b7182360016db0f27f07772c8275d349336387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:12 +0000
Subject: [PATCH 056/100] fix: positions of atoms read from disk

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 4b91b89..35d0bff 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -1404,7 +1404,7 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
             atom_type = atom.getAttribute("name")
             atom_pos = [float(x) for x in atom.firstChild.nodeValue.strip().split()]
             # convert atom_pos to crystal coordinates, as those are used by the class
-            atom_pos = np.linalg.inv(A) @ atom_pos
+            atom_pos = np.linalg.inv(crystal.A) @ (np.array(atom_pos) * (bohr_to_angstrom if crystal.unit == "angstrom" else 1.0))
             basis.append(atom_pos)
             types.append(atom_type)
         crystal.basis = np.array(basis)
-- 
2.43.0


From 1b326fc82026b5d4ad29e7d10a17b653a3c468f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:12 +0000
Subject: [PATCH 057/100] fix: cutoff and temperature from disk are in Hartree
 units

---
 src/tight_binding_redweasel/qespresso_interface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 35d0bff..5535e7c 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -1409,13 +1409,13 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
             types.append(atom_type)
         crystal.basis = np.array(basis)
         crystal.types = np.array(types)
-        crystal.kinetic_energy_cutoff = float(section.getElementsByTagName("ecutwfc")[0].firstChild.nodeValue)
+        # the xml is in Hartree, the input in Rydberg
+        crystal.kinetic_energy_cutoff = 2 * float(section.getElementsByTagName("ecutwfc")[0].firstChild.nodeValue)
         #ecutrho = float(section.getElementsByTagName("ecutrho")[0].firstChild.nodeValue)
         smearing = section.getElementsByTagName("smearing")
         if smearing:
             if smearing[0].firstChild.nodeValue.strip() == "fd": # TODO check the shorthand...
-                # TODO check unit!
-                crystal.T = float(smearing[0].getAttribute("degauss")) / 6.3336231269e-6
+                crystal.T = 2 * float(smearing[0].getAttribute("degauss")) / 6.3336231269e-6
     if prepare_pseudopotentials:
         qe_prepare()
     return crystal
-- 
2.43.0


From c2b06b05e9f2f231cd1c46be6ea7f548f0532ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:12 +0000
Subject: [PATCH 058/100] fix: restore the relativistic flag from disk

---
 src/tight_binding_redweasel/qespresso_interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 5535e7c..ea08d88 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -1412,6 +1412,9 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
         # the xml is in Hartree, the input in Rydberg
         crystal.kinetic_energy_cutoff = 2 * float(section.getElementsByTagName("ecutwfc")[0].firstChild.nodeValue)
         #ecutrho = float(section.getElementsByTagName("ecutrho")[0].firstChild.nodeValue)
+        spinorbit = section.getElementsByTagName("spinorbit")
+        if spinorbit:
+            crystal.relativistic = spinorbit[0].firstChild.nodeValue.strip() == "true"
         smearing = section.getElementsByTagName("smearing")
         if smearing:
             if smearing[0].firstChild.nodeValue.strip() == "fd": # TODO check the shorthand...
-- 
2.43.0


From fa6c211dd3b94a5f93e3c91bdfb64f605910ceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:12 +0000
Subject: [PATCH 059/100] fix: ignore symmetries of the lattice which are none
 of the crystal

---
 src/tight_binding_redweasel/qespresso_interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index ea08d88..5a9a712 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -532,6 +532,9 @@ class QECrystal:
             # now find all the data in the xml file
             symmetry_list = output.getElementsByTagName("symmetry")
             for sym in symmetry_list:
+                info = sym.getElementsByTagName("info")
+                if info and info[0].firstChild.nodeValue.strip() == "lattice_symmetry":
+                    continue
                 rot = sym.getElementsByTagName("rotation")[0]
                 # read content and convert to matrix
                 content = rot.firstChild.nodeValue
-- 
2.43.0


From 1a8ee343e4b1d2408960732ea096c8a51d34a755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:12 +0000
Subject: [PATCH 060/100] fix: order of the components of spinor wavefunctions

---
 src/tight_binding_redweasel/qespresso_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 5a9a712..d56333e 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -782,8 +782,8 @@ class QECrystal:
                     evc[i,:] = np.fromfile(f, dtype='complex128', count=npol*igwx)
                     f.seek(8, 1)
                 
-                # TODO is this order correct???
-                evc_list.append(evc.reshape(nbnd, igwx, npol))
+                # the file contains all coefficients of one component after the other
+                evc_list.append(np.swapaxes(evc.reshape(nbnd, npol, igwx), 1, 2))
                 g_smpl_list.append(mill)
         inv_order = np.zeros(len(order), dtype=np.int64)
         inv_order[np.array(order)-1] = np.arange(len(order))
-- 
2.43.0


From db6a785a2faef199dedcfb7d27852acb2e4fdac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 061/100] fix: reading the charge density

---
 src/tight_binding_redweasel/qespresso_interface.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index d56333e..6f608d2 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -818,14 +818,14 @@ class QECrystal:
             
             mill = np.fromfile(f, dtype='int32', count=3*ngm_g)
             mill = mill.reshape((ngm_g, 3))
-            # k+G = xk + h*b1 + k*b2 + l*b3
-            g_smpl = b1[None,:] * mill[:, 0:1] + b2[None,:] * mill[:, 1:2] + b3[None,:] * mill[:, 2:3]
+            # G = h*b1 + k*b2 + l*b3, mill is in crystal coordinates
+            rho_g = np.zeros((nspin, ngm_g), dtype="complex128")
 
-            rho_g = np.zeros((nspin, ngm_g))
+            f.seek(8, 1)
             for i in range(nspin):
                 rho_g[i,:] = np.fromfile(f, dtype='complex128', count=ngm_g)
                 f.seek(8, 1)
-        return g_smpl, rho_g
+        return mill, rho_g
 
     def read_dos(self):
         """Read the data from the last dos.x run.
-- 
2.43.0


From f902429185a7b9a628c2ca93000be76ba272bda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 062/100] fix: orbital names of crystals with several atoms

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 6f608d2..08eb0a6 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -599,7 +599,7 @@ class QECrystal:
                     key, _value = key_value.split("=")
                     key = key.strip()
                     if "charge" not in key and key not in ["p", "d", "f"]:
-                        if self.types:
+                        if len(self.types):
                             order.append(f"{index}{self.types[index-1]}_{key}")
                         else:
                             order.append(f"{index}_{key}")
-- 
2.43.0


From edf13c36ad84e37e4d17791565ec0f09007708dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 063/100] fix: densities of left-handed lattices, scaling of
 given lattice vectors

---
 src/tight_binding_redweasel/qespresso_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 08eb0a6..826ba55 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -401,7 +401,7 @@ class QECrystal:
         Returns:
             float: mass density in kg/m^3
         """
-        return self._mass_per_cell() / np.linalg.det(self.lattice_vectors_in_m())
+        return self._mass_per_cell() / abs(np.linalg.det(self.lattice_vectors_in_m()))
 
     def scale_to_density(self, density: float):
         """Scale the basis to match a given density.
@@ -409,7 +409,7 @@ class QECrystal:
         Args:
             density (float): The target density in kg/m^3
         """
-        self.A *= (self.mass_density() / density)**(1/3)
+        self.A = self.A * (self.mass_density() / density)**(1/3)
 
     def lattice_vectors_in_m(self) -> np.ndarray:
         """
-- 
2.43.0


From 380c0415ab4507687af6463586d6a221be1d79b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 064/100] fix: names of pseudopotential files reach the shell
 unchecked

---
 src/tight_binding_redweasel/qespresso_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 826ba55..8c35ede 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -108,8 +108,8 @@ def qe_prepare(pseudo_potential_files_dict=None):
             file = name + ".rel-pbesol-n-kjpaw_psl.1.0.0.UPF"
             pseudo_potential_files_dict[name] = file
         if not os.path.isfile("./pseudo/" + file):
-            # TODO sanitize "file" -> otherwise command injection is possible
-            if re.match(r"[a-zA-Z0-9\.\-]", file) is None:
+            # otherwise command injection is possible
+            if re.fullmatch(r"[a-zA-Z0-9_+\.\-]+", file) is None:
                 print("skipped file", file, "because it contains incompatible characters")
                 continue
             res = subprocess.run("wget https://pseudopotentials.quantum-espresso.org/upf_files/" + file, cwd="./pseudo", shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
-- 
2.43.0


From d182bde55faf62a39d08d11b35dfebb87befdde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:56 +0000
Subject: [PATCH 065/100] fix: bands without a list of symmetries

---
 src/tight_binding_redweasel/qespresso_interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 8c35ede..6eba0b6 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -561,6 +561,7 @@ class QECrystal:
             if len(S) == 0:
                 # there is always one symmetry, the trivial symmetry
                 S = np.eye(3)[None,...]
+                S_trans = [np.zeros(3)]
             # assert np.linalg.norm(np.einsum("nij,nik->njk", S, S) - np.eye(len(S[0]))) < 1e-5, "symmetries in crystal space are not orthogonal"
             assert np.linalg.norm(np.round(S) - S) < 1e-8, "symmetries in crystal space should be integers, but are not"
             assert len(S_trans) == len(S), "every symmetry needs an associated translational part if one of them has one."
-- 
2.43.0


From 317d573c4521a6dcdcbc2b00e1be2f46a533a962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 066/100] fix: TightBindingModel with inversion used its
 parameters before they were set

---
 src/tight_binding_redweasel/tight_binding.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 021a397..34d1411 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -27,21 +27,21 @@ class TightBindingModel:
         param_count = len(neighbors)
         if not self.sym.inversion:
             param_count = param_count * 2 - 1 # add separate sin Terms
-        else:
-            # make the onsite matrix blockdiagonal
-            n = unitary_repr.inv_split
-            self.params[0][:n,n:] = 0
-            self.params[0][n:,:n] = 0
         # check params
         if params is not None:
             assert np.shape(unitary_repr.U)[1] == np.shape(params)[1]
-            self.params = np.asarray(params)
+            self.params = np.array(params)
             pshape = np.shape(self.params)
             assert len(pshape) == 3
             assert pshape[1] == pshape[2]
             assert pshape[0] == param_count
         else:
             self.params = np.zeros((param_count,) + (np.shape(unitary_repr.U)[1],)*2, dtype=np.complex128)
+        if self.sym.inversion:
+            # make the onsite matrix blockdiagonal
+            n = unitary_repr.inv_split
+            self.params[0][:n,n:] = 0
+            self.params[0][n:,:n] = 0
         # TODO sanity checks for symmetrically equivalent neighbors (those are not allowed)
     
     def band_count(self):
-- 
2.43.0


From e8af9cdb712e834e8d8fafe1760b3f464bec24df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 067/100] fix: copy of a TightBindingModel

---
 src/tight_binding_redweasel/tight_binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 34d1411..2b8bb85 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -486,7 +486,7 @@ class TightBindingModel:
         return bands, grads, hess1 - 2*hess2
 
     def copy(self):
-        return TightBindingModel(self.f_i, self.df_i, self.params.copy())
+        return TightBindingModel(self.unitary_repr, self.neighbors, self.params.copy())
     
     # make a tight binding model for a supercell with [nx, ny, nz] = repeats
     def copy_transformed(self, transform):
-- 
2.43.0


From 58c6f33258d3825aa6a28e3a8359eb4c5e618513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 068/100] fix: complex parameters of a TightBindingModel
 without inversion

---
 src/tight_binding_redweasel/tight_binding.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 2b8bb85..f620553 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -432,8 +432,11 @@ class TightBindingModel:
             H[:,:k,k:] *= 1j
             H[:,k:,:k] *= 1j
         else:
-            H[1:] += H[(len(self.params)+1)//2:] * 1j
-            H = H[:(len(self.params)+1)//2]
+            n = (len(self.params) + 1) // 2
+            # the functions are cos(kr) - 1, so params[0] is the matrix at k=0, and params[0] is not halved
+            H[0] = self.params[0] - np.sum(self.params[1:n], axis=0)
+            H[1:n] -= H[n:] * 1j
+            H = H[:n]
         return H
     
     # set params from the complex fourier coefficients H_r
-- 
2.43.0


From f1fce82b9a9c0aad5e0a96db9c05a7c371e9d705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 069/100] fix: scale of the plotted Fermi surface

---
 src/tight_binding_redweasel/fermi_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/fermi_surface.py b/src/tight_binding_redweasel/fermi_surface.py
index 1848c83..dfd02cd 100644
--- a/src/tight_binding_redweasel/fermi_surface.py
+++ b/src/tight_binding_redweasel/fermi_surface.py
@@ -66,7 +66,7 @@ def plot_3D_fermi_surface_to_ax(ax, model, fermi_energy, N=32, k_range=[-0.5, 0.
         all_verts += 3e-2 * (all_verts - np.mean(all_verts, axis=1, keepdims=True))
         # Display resulting triangular mesh using Matplotlib. This can also be done
         # with mayavi (see skimage.measure.marching_cubes docstring).
-        mesh = Poly3DCollection(all_verts / N * (k_range[1] - k_range[0]) + k_range[0], antialiased=False, linewidth=0, linestyle='None')
+        mesh = Poly3DCollection(all_verts / (N - 1) * (k_range[1] - k_range[0]) + k_range[0], antialiased=False, linewidth=0, linestyle='None')
         mesh.set_edgecolor(None)
         mesh.set_facecolor(np.mean(all_rgb, axis=1))
         # TODO RendererBase.draw_gouraud_triangles exists
-- 
2.43.0


From 46b720312ae3b0e9ab81e531a31ffae40c37e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 070/100] fix: Fermi surfaces with more bands than colors

---
 src/tight_binding_redweasel/fermi_surface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/fermi_surface.py b/src/tight_binding_redweasel/fermi_surface.py
index dfd02cd..0b46893 100644
--- a/src/tight_binding_redweasel/fermi_surface.py
+++ b/src/tight_binding_redweasel/fermi_surface.py
@@ -50,7 +50,8 @@ def plot_3D_fermi_surface_to_ax(ax, model, fermi_energy, N=32, k_range=[-0.5, 0.
     all_verts = []
     all_rgb = []
     volumes, band_indices = fermi_surface(model, fermi_energy, xyz)
-    for volume, band, color in zip(volumes, band_indices, colors):
+    for index, (volume, band) in enumerate(zip(volumes, band_indices)):
+        color = colors[index % len(colors)]
         verts, faces, normals, _ = measure.marching_cubes(volume, 0)
 
         rgb = ls.shade_normals(normals, 1.0)[..., None] * mcolors.to_rgb(color)
@@ -138,7 +139,7 @@ illum 2
             f.write(f"g Band{band}\n")
             for v in verts:
                 f.write("v %.4f %.4f %.4f\n" % tuple(v))
-            f.write(f"usemtl color{index}\n")
+            f.write(f"usemtl color{index % len(colors)}\n")
             for face in faces:
                 f.write("f")
                 for i in face:
-- 
2.43.0


From 8fd3f9517983fe96a7076e717728d75cf007d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 071/100] fix: exported Fermi surface refers to the material
 file beside it

---
 src/tight_binding_redweasel/fermi_surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/fermi_surface.py b/src/tight_binding_redweasel/fermi_surface.py
index 0b46893..8d2dcb0 100644
--- a/src/tight_binding_redweasel/fermi_surface.py
+++ b/src/tight_binding_redweasel/fermi_surface.py
@@ -2,6 +2,7 @@
 # TODO the plot functions are not be stabilized yet
 
 # plot the fermi surface
+import os
 import numpy as np
 from matplotlib import pyplot as plt
 from collections.abc import Callable
@@ -127,7 +128,7 @@ illum 2
     # now create the obj file with the data
     with open(f"{file}.obj", 'w') as f:
         f.write("# OBJ file from tight_binding_redweasel.fermi_surface\n")
-        f.write(f"mtllib {file}.mtl\n")
+        f.write(f"mtllib {os.path.basename(file)}.mtl\n")
         f.write(f"o {file}\n")
         f.write("s 1\n")
 
-- 
2.43.0


From 43850c49adaa1f9ce0f5211ded3850f683bf19f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 072/100] fix: hessians at degenerate points for any list shape
 of matrices

---
 src/tight_binding_redweasel/linalg.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 74c0c71..2e6f7db 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -165,8 +165,6 @@ def eigh_grad_hess(H: np.ndarray, dH: np.ndarray, ddH: np.ndarray, epsilon=1e-6)
     if select.sum():
         # for this, an additional diagonalisation is needed for all matrices, which have degenerate eigenvalues.
         # To keep the efficiency high, only do the second diagonalisation for those which need it.
-        # TODO select only works if select.shape != tuple()
-        assert len(np.shape(dH_ev[select])) == len(dH_ev.shape)
         _, ev_dH = np.linalg.eigh(dH_ev[select] * mask[select][..., None, :, :])
         # stable sort ev such that the order of la doesn't change!
         sorting = np.argsort(np.argmin(np.abs(ev_dH) < 1e-7, axis=-2, keepdims=True), axis=-1)
-- 
2.43.0


From cea932134f97c2adb3b36fb42323e8c6bc02dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 073/100] fix: mixed derivatives of non degenerate bands next
 to degenerate ones

---
 src/tight_binding_redweasel/linalg.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 2e6f7db..356a8b8 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -161,6 +161,7 @@ def eigh_grad_hess(H: np.ndarray, dH: np.ndarray, ddH: np.ndarray, epsilon=1e-6)
     # second order perturbation theory terms
     diff = eigvals[..., :, None] - eigvals[..., None, :]
     mask = np.abs(diff) < epsilon
+    dH_rows = dH_ev.copy()  # only the rows in the new basis below, because that basis is another one for each variable
     select = np.sum(np.triu(mask, k=1), axis=(-1, -2)) > 0
     if select.sum():
         # for this, an additional diagonalisation is needed for all matrices, which have degenerate eigenvalues.
@@ -169,7 +170,11 @@ def eigh_grad_hess(H: np.ndarray, dH: np.ndarray, ddH: np.ndarray, epsilon=1e-6)
         # stable sort ev such that the order of la doesn't change!
         sorting = np.argsort(np.argmin(np.abs(ev_dH) < 1e-7, axis=-2, keepdims=True), axis=-1)
         ev_dH = np.take_along_axis(ev_dH, sorting, axis=-1)
+        # the phases need to be the same for all variables
+        first = np.take_along_axis(ev_dH, np.argmin(np.abs(ev_dH) < 1e-7, axis=-2, keepdims=True), axis=-2)
+        ev_dH = ev_dH * np.conj(first) / np.abs(first)
         # apply basis transformation to the selected dH_ev
+        dH_rows[select] = np.einsum("...ji,...jk->...ik", np.conj(ev_dH), dH_ev[select])
         dH_ev[select] = np.einsum("...ji,...jk,...kl->...il", np.conj(ev_dH), dH_ev[select], ev_dH)
         # hess1[select] = np.einsum("...ji,...jk,...kl->...il", np.conj(ev_dH), hess1[select], ev_dH)
     # first order eigenvalue change (gradient, actually needs the basis change!)
@@ -177,11 +182,11 @@ def eigh_grad_hess(H: np.ndarray, dH: np.ndarray, ddH: np.ndarray, epsilon=1e-6)
     # assume that the perturbation term commutes with the hamiltonian.
     # otherwise it can cause non linear sqrt terms in the series development.
     inv_mask = ~mask
-    dH_ev2 = dH_ev * inv_mask[..., None, :, :]  # implicit copy
-    dH_ev2 /= (diff + 1e-40)[..., None, :, :]
+    dH_rows2 = np.conj(dH_rows) * inv_mask[..., None, :, :]  # implicit copy
+    dH_rows2 /= (diff + 1e-40)[..., None, :, :]
     # hessian contribution from first derivative, second order perturbation theory
-    hess2 = np.real(np.einsum("...pik,...qki->...pqi", dH_ev, dH_ev2))
-    return eigvals, grads, hess1 - 2 * hess2
+    hess2 = np.real(np.einsum("...pik,...qik->...pqi", dH_rows, dH_rows2))
+    return eigvals, grads, hess1 + 2 * hess2
 
 
 def pointcloud_distance(pointcloud1, pointcloud2):
-- 
2.43.0


From b164595ee6365e1ccc32b457e9b87df8f2a695af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 074/100] fix: pointcloud_distance uses every point once

---
 src/tight_binding_redweasel/linalg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 356a8b8..45a86c4 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -198,10 +198,12 @@ def pointcloud_distance(pointcloud1, pointcloud2):
     # for each point in pointcloud1 find the closest in pointcloud2, add the distance, then remove that
     dist = 0.0
     for i, p1 in enumerate(pointcloud1):
+        if len(pointcloud2) == 0:
+            return np.inf
         d = np.linalg.norm(p1 - pointcloud2, axis=-1)
-        min_index = np.argmin(d.flat)
-        dist += d.flat[min_index]
-        d = np.delete(d.flat, min_index)
+        min_index = np.argmin(d)
+        dist += d[min_index]
+        pointcloud2 = np.delete(pointcloud2, min_index, axis=0)
     return dist
 
 
-- 
2.43.0


From 8120d193593cc39f957ff4d4bb24ae03abc3a90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 075/100] fix: lattice_in_sphere made skewed lattices more
 skewed

---
 src/tight_binding_redweasel/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 45a86c4..1b86fa2 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -214,7 +214,7 @@ def lattice_in_sphere(A, dist) -> np.ndarray:
         R /= np.diag(R)[:, None]
         R_inv = np.linalg.inv(R)
         assert abs(abs(np.linalg.det(R_inv)) - 1.0) < 1e-7
-        R_inv = np.round(R)
+        R_inv = np.round(R_inv)
         assert abs(abs(np.linalg.det(R_inv)) - 1.0) < 1e-7
         A = A @ R_inv
     # TODO use a supercell like fcc or bcc to make the following more efficient
-- 
2.43.0


From 00a670c2f212c04c90711b3bc518c7e8d15ce1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 076/100] fix: conjugate_gradient_solve overwrote the starting
 point

---
 src/tight_binding_redweasel/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 1b86fa2..229a480 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -298,7 +298,7 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
         x = np.zeros_like(b)
         r = -b
     else:
-        x = x0
+        x = np.array(x0)  # x0 stays unchanged
         r = A(x) - b
     d = r.copy()
     r_sqr = np.sum(r.conj() * r)
-- 
2.43.0


From 586f12f2757bebc377f92572562c19a18a965239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 077/100] fix: keep the zeros of the normalized model in fits

---
 src/tight_binding_redweasel/bandstructure.py  |  6 +++---
 .../tight_binding_asym.py                     | 20 +++++++++----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 73a1890..c6729d1 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -444,9 +444,6 @@ class BandStructureModel:
         band_weights = np.broadcast_to(np.reshape([band_weights], (1, -1)), (1, N_B))
         band_weights_sqr = (band_weights * band_weights)[0]
         weights = band_weights_sqr
-        # mask for keep_zeros
-        if keep_zeros:
-            H_r_mask = np.where(np.abs(self.params) < 1e-14, 0.0, 1.0)
         # memoize self.f_i here using a rectangular matrix
         f_i = np.zeros((len(k_smpl), len(self.params)), dtype=np.complex128)
         for i in range(len(self.params)):
@@ -491,6 +488,9 @@ class BandStructureModel:
                 return x
 
         self.normalize()
+        # mask for keep_zeros (the normalisation can change which parameters are zero)
+        if keep_zeros:
+            H_r_mask = np.where(np.abs(self.params) < 1e-14, 0.0, 1.0)
         loss = float("inf")
         iteration = 0
         try:
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index eaec916..dce33e1 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -363,11 +363,6 @@ class AsymTightBindingModel:
         # reshape normalized band_weights
         band_weights_norm = np.max(band_weights)**2
         band_weights = np.broadcast_to(np.reshape([band_weights], (1, -1)), (1, len(ref_bands[0])))
-        # mask for keep_zeros
-        if keep_zeros:
-            H_r_mask = np.where(np.abs(self.H.H_r) < 1e-14, 0.0, 1.0)
-            if train_S:
-                S_r_mask = np.where(np.abs(self.S.H_r) < 1e-14, 0.0, 1.0)
         if batch_div == 1 and use_pinv:  # improved optimization
             if max_accel_global is None:
                 max_accel_global = 1.0
@@ -413,6 +408,11 @@ class AsymTightBindingModel:
         if max_accel_global is None:
             max_accel_global = len(k_smpl)
         self.normalize()
+        # mask for keep_zeros (the normalisation can change which parameters are zero)
+        if keep_zeros:
+            H_r_mask = np.where(np.abs(self.H.H_r) < 1e-14, 0.0, 1.0)
+            if train_S:
+                S_r_mask = np.where(np.abs(self.S.H_r) < 1e-14, 0.0, 1.0)
 
         if not train_S:
             # precompute S for every k_smpl
@@ -555,11 +555,6 @@ class AsymTightBindingModel:
         band_weights = np.broadcast_to(np.reshape([band_weights], (1, -1)), (1, N_B))
         band_weights_sqr = (band_weights * band_weights)[0]
         weights = band_weights_sqr
-        # mask for keep_zeros
-        if keep_zeros:
-            H_r_mask = np.where(np.abs(self.H.H_r) < 1e-14, 0.0, 1.0)
-            if train_S:
-                S_r_mask = np.where(np.abs(self.S.H_r) < 1e-14, 0.0, 1.0)
         # memoize self.H.f_i here using a rectangular matrix
         f_i = np.zeros((len(k_smpl), len(self.H.H_r)), dtype=np.complex128)
         for ki, k in enumerate(k_smpl):
@@ -616,6 +611,11 @@ class AsymTightBindingModel:
                 return x
 
         self.normalize()
+        # mask for keep_zeros (the normalisation can change which parameters are zero)
+        if keep_zeros:
+            H_r_mask = np.where(np.abs(self.H.H_r) < 1e-14, 0.0, 1.0)
+            if train_S:
+                S_r_mask = np.where(np.abs(self.S.H_r) < 1e-14, 0.0, 1.0)
 
         if not train_S:
             # precompute S for every k_smpl
-- 
2.43.0


From be08e199eb88f6d6ad566c779b5e5895d1e6df13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 078/100] fix: use the overlap of the batch in batched fits of
 AsymTightBindingModel

---
 src/tight_binding_redweasel/tight_binding_asym.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index dce33e1..1ad94db 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -416,7 +416,7 @@ class AsymTightBindingModel:
 
         if not train_S:
             # precompute S for every k_smpl
-            S = self.S.f(k_smpl)
+            S_smpl = self.S.f(k_smpl)
         # start stochastic gradient descent
         last_add = np.zeros_like(self.H.H_r)
         last_add_s = np.zeros_like(self.S.H_r)
@@ -431,6 +431,8 @@ class AsymTightBindingModel:
                 if train_S:
                     batch_s_f_i = s_f_i[iteration % batch_div::batch_div]
                     batch_s_c_i = s_c_i[iteration % batch_div::batch_div]
+                else:
+                    S = S_smpl[iteration % batch_div::batch_div]
                 max_accel = min(len(batch), max_accel_global)
                 # compute c_i if pinv is requested, even though this is kinda slow...
                 if batch_div != 1 and use_pinv:
-- 
2.43.0


From fc1f381b3f9c424df6e4b023a55c764602ca7b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:30 +0000
Subject: [PATCH 079/100] fix: assign H and S of a completed step together in
 fits with train_S

---
 src/tight_binding_redweasel/tight_binding_asym.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 1ad94db..c3b0b0e 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -528,12 +528,15 @@ class AsymTightBindingModel:
                 H_r_add += last_add * (1 - 1 / max_accel)
                 if train_S:
                     S_r_add += last_add_s * (1 - 1 / max_accel) # don't accelerate S???
-                # change parameters
-                self.H.H_r = self.H.H_r + H_r_add
+                # change parameters, only by completed steps, as it can be interrupted at any point
+                H_r = self.H.H_r + H_r_add
                 last_add = H_r_add
                 if train_S:
-                    self.S.H_r = self.S.H_r + S_r_add
+                    S_r = self.S.H_r + S_r_add
                     last_add_s = S_r_add
+                    self.H.H_r, self.S.H_r = H_r, S_r
+                else:
+                    self.H.H_r = H_r
             else:
                 iteration = iterations
         except KeyboardInterrupt:
-- 
2.43.0


From 6709637de97edb79c2d7d719a575d1dad6dfb0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:29 +0000
Subject: [PATCH 080/100] fix: randomize AsymTightBindingModel with real
 coefficients

---
 src/tight_binding_redweasel/tight_binding_asym.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index c3b0b0e..9ff57dc 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -313,12 +313,12 @@ class AsymTightBindingModel:
         dparams = sigma * np.random.standard_normal(self.H.H_r.shape) + sigma * 1j*np.random.standard_normal(self.H.H_r.shape)
         if keep_zeros:
             dparams *= np.where(np.abs(self.H.H_r) < 1e-8, 0, 1)
-        self.H.H_r += dparams
+        self.H.H_r = self.H.H_r + dparams
         if randomize_S:
             dparams = sigma * np.random.standard_normal(self.S.H_r.shape) + sigma * 1j*np.random.standard_normal(self.S.H_r.shape)
             if keep_zeros:
                 dparams *= np.where(np.abs(self.S.H_r) < 1e-8, 0, 1)
-            self.S.H_r += dparams
+            self.S.H_r = self.S.H_r + dparams
 
     def error(self, k_smpl, ref_bands, band_weights, band_offset):
         """
-- 
2.43.0


From c619e7ecce3d9ea6909eee6f074d524abdffe01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:02 +0000
Subject: [PATCH 081/100] fix: finite hessians of TightBindingModel where bands
 are degenerate

---
 src/tight_binding_redweasel/tight_binding.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index f620553..8f08ec8 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -3,6 +3,7 @@ from matplotlib import pyplot as plt
 from .symmetry import *
 from .unitary_representations import *
 from .loss import *
+from .linalg import eigh_grad_hess
 
 def random_hermitian(n):
     h = (np.random.random((n, n)) * 2 - 1) + 1j * (2 * np.random.random((n, n)) - 1)
@@ -471,22 +472,8 @@ class TightBindingModel:
     # hessian, gradients wrt to k of the bands at k_smpl
     # returns (bands, grads, hessians)
     def bands_grad_hess(self, k_smpl):
-        bands, ev = np.linalg.eigh(self.f(k_smpl))
-        df = self.df(k_smpl)
-        ddf = self.ddf(k_smpl)
-        # first order perturbation theory terms
-        df_ev = np.einsum("mji, mnjk, mkl -> mnil", np.conj(ev), df, ev)
-        grads = np.real(np.diagonal(df_ev, axis1=2, axis2=3))
-        hess1 = np.real(np.einsum("mji, mpqjk, mki -> mpqi", np.conj(ev), ddf, ev))
-        # second order perturbation theory terms
-        no_diag = np.array(df_ev) # copy before modification (grads is a view)
-        for i in range(len(grads[0,0])):
-            no_diag[:,:,i,i] = 0 # zero out diagonal terms
-        #dev = ev[:,None,:,:] @ (no_diag / (bands[:,None,:,None] - bands[:,None,None,:] + 1e-40))
-        #hess2 = np.real(np.einsum("mji, mpjk, mqki -> mpqi", 2*np.conj(ev), df, dev))
-        db = no_diag / (bands[:,None,:,None] - bands[:,None,None,:] + 1e-40)
-        hess2 = np.real(np.einsum("mpik, mqki -> mpqi", df_ev, db))
-        return bands, grads, hess1 - 2*hess2
+        # this takes care of degenerate bands
+        return eigh_grad_hess(self.f(k_smpl), self.df(k_smpl), self.ddf(k_smpl))
 
     def copy(self):
         return TightBindingModel(self.unitary_repr, self.neighbors, self.params.copy())
-- 
2.43.0


From 51b63e0cb6827e5aec2e1042e9abec29d9e45faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:02 +0000
Subject: [PATCH 082/100] fix: hessians of AsymTightBindingModel at degenerate
 bands and with a k-dependent overlap

---
 .../tight_binding_asym.py                     | 38 ++++++++++---------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 9ff57dc..090ca1e 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -817,24 +817,26 @@ class AsymTightBindingModel:
         Returns:
             (arraylike(N_k, N_b), arraylike(N_k, dim, N_b), arraylike(N_k, dim, dim, N_b)): (bands, grads, hessians)
         """
-        # TODO add dS and ddS!!
-        bands, ev = geigh(self.H.f(k_smpl), self.S.f(k_smpl))
-        df = self.H.df(k_smpl)
-        ddf = self.H.ddf(k_smpl)
-        # first order perturbation theory terms
-        df_ev = np.einsum("mji, mnjk, mkl -> mnil", np.conj(ev), df, ev)
-        grads = np.real(np.diagonal(df_ev, axis1=2, axis2=3))
-        hess1 = np.real(np.einsum("mji, mpqjk, mki -> mpqi", np.conj(ev), ddf, ev))
-        # second order perturbation theory terms
-        no_diag = np.array(df_ev)  # copy before modification (grads is a view)
-        for i in range(len(grads[0, 0])):
-            no_diag[:, :, i, i] = 0  # zero out diagonal terms
-        # dev = ev[:,None,:,:] @ (no_diag / (bands[:,None,:,None] - bands[:,None,None,:] + 1e-40))
-        # hess2 = np.real(np.einsum("mji, mpjk, mqki -> mpqi", 2*np.conj(ev), df, dev))
-        db = no_diag / (bands[:, None, :, None] -
-                        bands[:, None, None, :] + 1e-40)
-        hess2 = np.real(np.einsum("mpik, mqki -> mpqi", df_ev, db))
-        return bands, grads, hess1 - 2*hess2
+        # use a basis with S = 1 at each k. There the eigenvalues are those of S^(-1/2) H S^(-1/2)
+        L_inv = np.linalg.inv(np.linalg.cholesky(self.S.f(k_smpl)))
+
+        def transform(mat):
+            L = L_inv.reshape((len(L_inv),) + (1,) * (len(mat.shape) - 3) + L_inv.shape[1:])
+            return L @ mat @ np.conj(np.swapaxes(L, -1, -2))
+
+        H = transform(self.H.f(k_smpl))
+        dH, dS = transform(self.H.df(k_smpl)), transform(self.S.df(k_smpl))
+        ddH, ddS = transform(self.H.ddf(k_smpl)), transform(self.S.ddf(k_smpl))
+        # with the derivatives of S^(-1/2) up to second order
+        H_p, H_pq = H[:, None], H[:, None, None]
+        S_p, S_q = dS[:, :, None], dS[:, None, :]
+        ddR = 3/8 * (S_p @ S_q + S_q @ S_p) - ddS / 2
+        mixed = S_p @ dH[:, None, :] + S_q @ dH[:, :, None]
+        mixed = ddR @ H_pq + S_p @ H_pq @ S_q / 4 - mixed / 2
+        ddH = ddH + mixed + np.conj(np.swapaxes(mixed, -1, -2))
+        half = dS @ H_p / 2
+        dH = dH - half - np.conj(np.swapaxes(half, -1, -2))
+        return eigh_grad_hess(H, dH, ddH)
 
     def supercell(self, A_original, A_new) -> 'AsymTightBindingModel':
         """
-- 
2.43.0


From ed1a80eb4d44d3a4078b6691e775a1c7c3f7e0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:02 +0000
Subject: [PATCH 083/100] fix: keep complex eigenvectors of real matrices with
 complex overlap in geigh

---
 src/tight_binding_redweasel/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 229a480..2b7c88d 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -72,7 +72,7 @@ def geigh(H: np.ndarray, S: np.ndarray) -> tuple[np.ndarray, np.ndarray]:
         else:
             # TODO check if using np.linalg.cholesky to factor S and then np.linalg.eigh is faster
             res_la = np.zeros(H.shape[:-1], dtype=np.float64)
-            res_ev = np.zeros(H.shape, dtype=H.dtype)
+            res_ev = np.zeros(H.shape, dtype=np.result_type(H, S, np.float64))
             for i in range(len(H)):
                 la, ev = scipy.linalg.eigh(H[i], S[i])
                 res_la[i] = la
-- 
2.43.0


From adf6e078ca8da34784d181ba712794fe2dd38b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:06 +0000
Subject: [PATCH 084/100] fix: optimize of TightBindingModel with more than one
 band

---
 src/tight_binding_redweasel/tight_binding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 8f08ec8..b1134c0 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -388,12 +388,12 @@ class TightBindingModel:
 
                 if iteration % 100 == 0:
                     #print(f"loss: {new_loss:.2e} alpha: {alpha:.1e}")
-                    l = self.loss(k_smpl, ref_bands, weights, band_offset)
+                    l = self.loss(k_smpl, ref_bands, weights[0], band_offset)
                     print(f"\rloss: {l:.2e}", end="")
         except KeyboardInterrupt:
             print("\naborted")
         self.normalize()
-        l = self.loss(k_smpl, ref_bands, weights, band_offset)
+        l = self.loss(k_smpl, ref_bands, weights[0], band_offset)
         print(f"\rfinal loss: {l:.2e}")
 
     def normalize(self):
-- 
2.43.0


From e585d5f66a3277f3a30f37d739d0cd30f20b70e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:06 +0000
Subject: [PATCH 085/100] fix: steps of TightBindingModel.optimize without
 inversion were scaled twice

---
 src/tight_binding_redweasel/tight_binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index b1134c0..a0b611e 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -344,7 +344,7 @@ class TightBindingModel:
             def mul_cs(c, _s, matrix):
                 return c[..., None, None] * matrix[None, ..., :, :]
             def einsum_cs(c, _s, diff):
-                return np.einsum("bij,bn->nij", diff, c * sc[:,None])
+                return np.einsum("bij,bn->nij", diff, c)
         self.params = self.symmetrizer(self.params)
         # reshape k_smpl_weights
         k_smpl_weights = np.broadcast_to(np.reshape([k_smpl_weights], (-1, 1)), (len(k_smpl), 1))
-- 
2.43.0


From b30e04947b9ac76ecf69f30659a1521eaaf6ed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:33 +0000
Subject: [PATCH 086/100] fix: gradients of TightBindingModel failed at k
 points given as integers

---
 src/tight_binding_redweasel/tight_binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index a0b611e..2b88e64 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -190,7 +190,7 @@ class TightBindingModel:
     def df_i(self, k, i):
         assert i >= 0
         k = np.asarray(k)
-        d = np.zeros_like(k)
+        d = np.zeros(np.shape(k))
         if i == 0:
             if self.sym.inversion:
                 return d, d
-- 
2.43.0


From 554022e7d9cd648521ff48426827d424518b0fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:33 +0000
Subject: [PATCH 087/100] fix: models set from real or integer coefficients
 kept their type and failed later

---
 src/tight_binding_redweasel/bandstructure.py | 4 ++--
 src/tight_binding_redweasel/tight_binding.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index c6729d1..f42da1f 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -649,12 +649,12 @@ class BandStructureModel:
         # each matrix appears with the reduced coefficient function of all symmetric images
         images = 1 if self.sym is None else len(self.sym.S)
         if self.exp:
-            self.params = np.array(H_r)
+            self.params = np.array(H_r, dtype=np.complex128)
             if self.cos_reduced:
                 self.params[0] += images * np.sum(self.params[1:] +
                                          np.conj(np.swapaxes(self.params[1:], -1, -2)), axis=0)
         else:
-            self.params = np.array(H_r)
+            self.params = np.array(H_r, dtype=np.complex128)
             n = len(H_r)
             if self.sym is not None and not self.sym.inversion:
                 A = self.params + np.conj(np.swapaxes(self.params, -1, -2))
diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 2b88e64..3c582b3 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -31,7 +31,7 @@ class TightBindingModel:
         # check params
         if params is not None:
             assert np.shape(unitary_repr.U)[1] == np.shape(params)[1]
-            self.params = np.array(params)
+            self.params = np.array(params, dtype=np.complex128)
             pshape = np.shape(self.params)
             assert len(pshape) == 3
             assert pshape[1] == pshape[2]
@@ -443,7 +443,7 @@ class TightBindingModel:
     # set params from the complex fourier coefficients H_r
     def set_from_complex(self, H_r):
         # TODO doesn't work...
-        self.params = np.array(H_r)
+        self.params = np.array(H_r, dtype=np.complex128)
         n = len(H_r)
         if not self.sym.inversion:
             A = self.params + np.conj(np.swapaxes(self.params, -1, -2))
-- 
2.43.0


From dee0a7fa6e38ac77e95d6864e37d2a407d3fa892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:48 +0000
Subject: [PATCH 088/100] fix: adding a number to models with real or integer
 matrices failed

---
 src/tight_binding_redweasel/tight_binding_asym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 090ca1e..7bfaa2b 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -27,7 +27,7 @@ class HermitianFourierSeries:
         assert len(np.shape(neighbors)) == 2
         assert len(np.shape(H_r)) == 3
         self.neighbors = np.asarray(neighbors, dtype=float)
-        self.H_r = np.asarray(H_r)
+        self.H_r = np.asarray(H_r, dtype=np.complex128)
 
     def dim(self) -> int:
         """
-- 
2.43.0


From 2188367a8335f0357639d3ab845a1033cd313125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:10 +0000
Subject: [PATCH 089/100] fix: conjugate_gradient_solve failed for integer and
 mixed real/complex systems and changed arrays returned by A

---
 src/tight_binding_redweasel/linalg.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 2b7c88d..a136c83 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -316,15 +316,13 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
             # print("cg", i, "d")
             return x
         alpha = r_sqr / d_sqr
-        x -= alpha * d
+        x = x - alpha * d  # nothing is done in place, as x0, b and A can have different types
         if i > max_i:
             # print(f"conjugate gradient didn't converge ({r_sqr**.5:.2e} > {err:.2e})")
             return x
 
         i += 1
-        A_d *= alpha
-        r -= A_d
+        r = r - alpha * A_d
         r_sqr_last = r_sqr
         r_sqr = np.sum(r.conj() * r)
-        d *= r_sqr / r_sqr_last
-        d += r
+        d = d * (r_sqr / r_sqr_last) + r
-- 
2.43.0


From a8510d710485eda44393b36552106a72369d1e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:01 +0000
Subject: [PATCH 090/100] fix: DensityOfStates with tetrahedra gave nan for
 models with single precision bands

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 80b61d6..c76a3d8 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -264,7 +264,7 @@ class DensityOfStates:
             grads = np.reshape(grads, shape + (-1,))
         else:
             bands = model(np.reshape(self.k_smpl, (-1, 3)))
-        self.bands = np.reshape(bands, shape[:-1] + (-1,))
+        self.bands = np.reshape(np.asarray(bands, dtype=np.float64), shape[:-1] + (-1,))
         if "bands_grad_hess" in dir(model):
             # compute better band ranges using a Newton step to find the actual extrema in k
             # -> use self.model.bands_grads_hess(...), and do the step if the hessian is positive semi-definite
-- 
2.43.0


From 0c68eccca21225acdd6360e0bae9dd1fc154374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:50 +0000
Subject: [PATCH 091/100] fix: model_error failed for bands given as integers

---
 src/tight_binding_redweasel/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/loss.py b/src/tight_binding_redweasel/loss.py
index ff849f3..62ff47d 100644
--- a/src/tight_binding_redweasel/loss.py
+++ b/src/tight_binding_redweasel/loss.py
@@ -13,7 +13,7 @@ def model_error(bands, ref_bands, band_weights, band_offset) -> tuple[float, np.
     assert len(np.shape(bands)) == 2
     err = (bands[:, band_offset:][:, :len(ref_bands[0])] - ref_bands)
     max_err = np.max(np.abs(err), axis=0)
-    err *= np.reshape(band_weights, (1, -1))
+    err = err * np.reshape(band_weights, (1, -1))  # not in place, as the bands can be integers
     return np.linalg.norm(err) / len(bands)**0.5, max_err
 
 def model_loss(bands, ref_bands, band_weights, band_offset) -> float:
-- 
2.43.0


From fdc9a96837444e2be97674a0cb57c2297b852b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 092/100] fix: transposing a projective symmetry dropped its
 flag and only 3D space groups could be transformed

---
 src/tight_binding_redweasel/symmetry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 7e8033f..5584317 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -130,7 +130,7 @@ class Symmetry:
 
     def transpose(self) -> 'Symmetry':
         """Get the symmetry with all the symmetry operations transposed. That is the symmetry group for the dual lattice/vector space."""
-        return Symmetry(np.array(np.swapaxes(self.S, -1, -2)), self.inversion)
+        return Symmetry(np.array(np.swapaxes(self.S, -1, -2)), self.inversion, self.projective)
 
     def __eq__(self, other: 'Symmetry') -> bool:
         if self.dim() != other.dim():
@@ -224,8 +224,8 @@ class Symmetry:
         """
         if self.projective:
             assert np.shape(basis_transform) == (self.dim() - 1,) * 2, "basis_transform needs to be a square matrix with matching dimension"
-            # TODO test!
-            basis_transform = np.block([[basis_transform, np.zeros((3, 1))], [np.zeros((1, 3)), np.eye(1)]])
+            d = self.dim() - 1
+            basis_transform = np.block([[np.asarray(basis_transform), np.zeros((d, 1))], [np.zeros((1, d)), np.eye(1)]])
         else:
             assert np.shape(basis_transform) == (self.dim(),) * 2, "basis_transform needs to be a square matrix with matching dimension"
         S = np.einsum("nij,mi,jk->nmk", self.S,
-- 
2.43.0


From c5c32349c05330a21e20757975b60204f8274330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 093/100] fix: remove_translation lost the inversion and
 strict_point_group failed for symmetries without translations

---
 src/tight_binding_redweasel/symmetry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 5584317..32c28f4 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -940,10 +940,11 @@ class Symmetry:
         Returns:
             Self: A cut down symmetry if it was projective, or self (by reference)
         """
-        assert self.projective, "no translational symmetries included"
+        if not self.projective:
+            return self
         sym = self.subgroup(lambda s: np.linalg.norm(s[:-1, -1]) + np.linalg.norm(s[-1, :-1]))
-        sym.S = np.array(sym.S[:, :-1, :-1])
-        return sym
+        # create it from the operations to find the inversion symmetry
+        return Symmetry(sym.S[:, :-1, :-1])
 
     def ignore_translation(self) -> 'Symmetry':
         """Get a symmetry without translational component,
-- 
2.43.0


From ac38c758b38018c8262da95b8399b1c82e83c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 094/100] fix: ignore_translation listed operations, which only
 differ by their translation, repeatedly

---
 src/tight_binding_redweasel/symmetry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 32c28f4..83c677f 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -954,7 +954,12 @@ class Symmetry:
             Self: A cut down symmetry if it was projective, or self (by reference)
         """
         if self.projective:
-            return Symmetry(self.S[:, :-1, :-1], self.inversion, projective=False)
+            S = []
+            for s in self.S[:, :-1, :-1]:
+                # operations, which only differ by a translation are the same now
+                if not any(np.linalg.norm(s - s2) < 1e-7 for s2 in S):
+                    S.append(s)
+            return Symmetry(S, self.inversion, projective=False)
         return self
 
     def __contains__(self, other: 'Symmetry') -> bool:
-- 
2.43.0


From 6b8e78fd9ae06cd684b7b6c8a42a7f59bf72e843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:24 +0000
Subject: [PATCH 095/100] fix: subgroups of a projective symmetry lost the flag

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 83c677f..103408f 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -913,7 +913,7 @@ class Symmetry:
         for s in self.get_symmetry_operations()[1:]:
             if np.linalg.norm(invariant_func(s) - value) < 1e-8:
                 S.append(s)
-        sym = Symmetry(S)
+        sym = Symmetry(S, projective=self.projective)
         assert sym.check(), "The subgroup is not closed, therefore the function was not a class function or the original group was not closed"
         return sym
 
-- 
2.43.0


From 1bca5b26d1e838d6047ebadeffd3fa37363b6cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:52 +0000
Subject: [PATCH 096/100] fix: complex parameters of a TightBindingModel with
 inversion

---
 src/tight_binding_redweasel/tight_binding.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 3c582b3..0aa0106 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -429,9 +429,13 @@ class TightBindingModel:
     def params_complex(self):
         H = self.params / 2
         if self.sym.inversion:
+            # cos(kr) - 1 on the diagonal blocks and sin(kr) on the others, so params[0] is the matrix at k=0, and it is not halved
             k = self.unitary_repr.inv_split
-            H[:,:k,k:] *= 1j
-            H[:,k:,:k] *= 1j
+            H[0] = self.params[0]
+            H[0,:k,:k] -= np.sum(self.params[1:,:k,:k], axis=0)
+            H[0,k:,k:] -= np.sum(self.params[1:,k:,k:], axis=0)
+            H[1:,:k,k:] *= -1j
+            H[1:,k:,:k] *= -1j
         else:
             n = (len(self.params) + 1) // 2
             # the functions are cos(kr) - 1, so params[0] is the matrix at k=0, and params[0] is not halved
@@ -442,7 +446,6 @@ class TightBindingModel:
     
     # set params from the complex fourier coefficients H_r
     def set_from_complex(self, H_r):
-        # TODO doesn't work...
         self.params = np.array(H_r, dtype=np.complex128)
         n = len(H_r)
         if not self.sym.inversion:
@@ -450,10 +453,18 @@ class TightBindingModel:
             B = 1j*(self.params - np.conj(np.swapaxes(self.params, -1, -2)))
             self.params = np.concatenate([A, B[1:]], axis=0)
         else:
+            B = 1j*(self.params - np.conj(np.swapaxes(self.params, -1, -2)))
             self.params += np.conj(np.swapaxes(self.params, -1, -2))
+            # the blocks between even and odd states are multiplied with sin(kr)
+            k = self.unitary_repr.inv_split
+            self.params[:,:k,k:] = 0
+            self.params[:,k:,:k] = 0
         self.params /= 2
         self.params[0] += np.sum(self.params[1:n], axis=0)*2
         self.params[1:] *= 2
+        if self.sym.inversion:
+            self.params[1:,:k,k:] = B[1:,:k,k:]
+            self.params[1:,k:,:k] = B[1:,k:,:k]
     
     def bands(self, k_smpl):
         return np.linalg.eigvalsh(self.f(k_smpl))
-- 
2.43.0


From cee7927bb676d8e73688b21c71a5b7807a33faf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:38 +0000
Subject: [PATCH 097/100] fix: integer points in the unit cell when nothing
 moves them

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 103408f..bc1e698 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -561,7 +561,7 @@ class Symmetry:
                     full_k.append(k_)
                     order.append(i)
         order = np.asarray(order)
-        full_k = np.asarray(full_k)
+        full_k = np.asarray(full_k, dtype=float)
         if unit_cell:
             # make sure all k are inside the [-0.5, 0.5[ region
             # first restrict it to [0, 1[
-- 
2.43.0


From 2b3f424d9b2d1ef5bd26cd39d0e258e624044ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:54 +0000
Subject: [PATCH 098/100] fix: saving a model with overlap matrices lost them

---
 src/tight_binding_redweasel/bandstructure.py     |  2 ++
 src/tight_binding_redweasel/json_tb_format.py    | 16 +++++++++++++---
 .../tight_binding_asym.py                        |  7 ++++---
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index f42da1f..45ba76e 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -757,6 +757,8 @@ class BandStructureModel:
                 Symmetry.none(len(neighbors[0])), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
             model.set_params_complex(H_r)
         elif format == "json":
+            if json_tb_format.load(filename, overlap=True) is not None:
+                raise ValueError("the model in this file has an overlap matrix, load it as AsymTightBindingModel")
             neighbors, H_r = json_tb_format.load(filename)
             model = BandStructureModel.init_tight_binding(
                 Symmetry.none(len(neighbors[0])), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
diff --git a/src/tight_binding_redweasel/json_tb_format.py b/src/tight_binding_redweasel/json_tb_format.py
index 36e6be5..96a695f 100644
--- a/src/tight_binding_redweasel/json_tb_format.py
+++ b/src/tight_binding_redweasel/json_tb_format.py
@@ -6,9 +6,14 @@ import json
 # However it is also useful as a general purpose exchange format for
 # tight binding models as it is really easy to implement in most languages using a json package.
 
-def load(filename):
+def load(filename, overlap=False):
+    # with overlap=True this loads the overlap matrices of a nonorthogonal basis, or None if the file has none
     with open(filename, "r") as file:
         data = json.load(file)
+    if overlap:
+        if "overlap" not in data:
+            return None
+        data = data["overlap"]
     band_count = data["band_count"]
     neighbors = np.array(data["neighbors"])
     params = np.array([h["data"] for h in data["params"]]).reshape(len(neighbors), band_count, band_count, -1)
@@ -22,7 +27,7 @@ def load(filename):
     order = np.argsort(np.linalg.norm(neighbors, axis=-1))
     return neighbors[order], params[order]
 
-def save(filename, neighbors, params):
+def save(filename, neighbors, params, overlap=None):
     neighbors = np.asarray(neighbors, dtype=np.float64)
     # build the correct format from 
     # {"band_count":12,"params":[{"v":1,"dim":[12,12],"data":[[1.0,1.0],...]},...],"neighbors":[[0.0,0.0,0.0],...]}
@@ -33,5 +38,10 @@ def save(filename, neighbors, params):
         params = np.where(np.abs(np.imag(params)) < 1e-14, np.real(params), params)
         # save them in the json format
         params_repr = [{"v": 1, "dim": [band_count, band_count], "data": [[np.real(v), np.imag(v)] for v in h.flat]} for h in params]
-        json.dump({"band_count": band_count, "params": params_repr, "neighbors": [tuple(n) for n in neighbors]}, file)
+        extra = {}
+        if overlap is not None:
+            # the overlap matrices of a nonorthogonal basis (neighbors, params) are an optional part of the same kind
+            overlap_repr = [{"v": 1, "dim": [band_count, band_count], "data": [[np.real(v), np.imag(v)] for v in h.flat]} for h in overlap[1]]
+            extra["overlap"] = {"band_count": band_count, "params": overlap_repr, "neighbors": [tuple(n) for n in overlap[0]]}
+        json.dump({"band_count": band_count, "params": params_repr, "neighbors": [tuple(n) for n in neighbors], **extra}, file)
 
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 7bfaa2b..50d01df 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -259,8 +259,8 @@ class AsymTightBindingModel:
             raise ValueError('only supported format is "json"')
         with np.printoptions(precision=None, suppress=False, floatmode="unique", threshold=sys.maxsize, legacy='1.21'):
             if format == "json":
-                json_tb_format.save(filename, self.H.neighbors, self.H.H_r)
-                # TODO save the S matrix part as well, maybe in a separate file? Or extend the format...
+                trivial = not np.any(self.S.H_r[1:]) and np.array_equal(self.S.H_r[0], np.eye(self.band_count()))
+                json_tb_format.save(filename, self.H.neighbors, self.H.H_r, overlap=None if trivial else (self.S.neighbors, self.S.H_r))
 
     @staticmethod
     def load(filename: str, format=None) -> Self:
@@ -301,7 +301,8 @@ class AsymTightBindingModel:
             model = AsymTightBindingModel(HermitianFourierSeries(neighbors, H_r))
         elif format == "json":
             neighbors, H_r = json_tb_format.load(filename)
-            model = AsymTightBindingModel(HermitianFourierSeries(neighbors, H_r))
+            overlap = json_tb_format.load(filename, overlap=True)
+            model = AsymTightBindingModel(HermitianFourierSeries(neighbors, H_r), None if overlap is None else HermitianFourierSeries(*overlap))
         return model
 
     def randomize(self, sigma, keep_zeros=False, randomize_S=False):
-- 
2.43.0


From 4d1b2ca90c130918ec931f0624698159421d68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:17 +0000
Subject: [PATCH 099/100] fix: adding complex representations lost the
 imaginary parts

---
 src/tight_binding_redweasel/unitary_representations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index a10ba59..ee17d11 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -467,6 +467,7 @@ class UnitaryRepresentation:
         rhs = rhs.copy()
         rhs.match_sym(self.sym)
         u_repr = UnitaryRepresentation(self.sym, self.dim() + rhs.dim())
+        u_repr.U = u_repr.U.astype(np.result_type(u_repr.U, self.U, rhs.U)) # keep complex representations complex
         # one of the two representations must fully commit to -1 or 1 on inversion
         if self.inv_split == 0:
             # self is commited to -1 on inversion
-- 
2.43.0


From 5e824d387ac8ae08178add2527b9acb66b8c349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:54 +0000
Subject: [PATCH 100/100] fix: points of tetragonal lattices replaced the
 default points of the module

---
 src/tight_binding_redweasel/kpaths.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index daf5403..31b5c05 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -28,6 +28,8 @@ points['M2d'] = (0.5 * np.array([1, 1]), 'M')  # Sigma line
 # 1D points
 points['G1d'] = (0.5 * np.array([0]), 'Γ')
 points['X1d'] = (0.5 * np.array([1]), 'X')
+# another name for functions with local points
+_cubic_points = points
 
 
 class KPath(Sequence):
@@ -410,8 +412,7 @@ def tetragonal_bc_points(c: float) -> dict:
         dict: _description_
     """
     if c == 1:
-        global points
-        return points  # cubic, is contained in the global points dict
+        return _cubic_points  # cubic, is contained in the global points dict
     points = {}
     points['G'] = (np.zeros(3), 'Γ')
     points['X'] = (np.array([0.5, 0.5, 0]), 'X')
-- 
2.43.0

