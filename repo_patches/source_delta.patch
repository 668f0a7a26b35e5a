From a572329835b9ed0f8301c590ffeeeb3630f1ccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:03 +0000
Subject: [PATCH 01/49] fix: subgroup child maps of SO(2) and O(2) return valid
 elements of the subgroup

---
 e2cnn/group/groups/o2group.py  | 4 ++--
 e2cnn/group/groups/so2group.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 13051e9..4624c74 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -209,7 +209,7 @@ class O2(Group):
                 # child_mapping = lambda e, order=order: None if (e[0] != 0 or not divides(2.*np.pi/order, e[1])) else \
                 #                                        int(round(e[1] * order / (2.*np.pi)))
                 child_mapping = lambda e, order=order: None if (e[0] != 0 or not utils.cycle_isclose(e[1], 0., 2.*np.pi/order)) else \
-                    int(round(e[1] * order / (2.*np.pi)))
+                    int(round(e[1] * order / (2.*np.pi))) % order
 
             elif id[0] is not None and id[1] > 1:
                 # take the elements of the group generated by "2pi/order" and "2pi/k f"
@@ -217,7 +217,7 @@ class O2(Group):
 
                 parent_mapping = lambda e, order=order, axis=axis: (e[0], e[1] * 2. * np.pi / order + e[0]*axis)
                 child_mapping = lambda e, order=order, axis=axis: None if not utils.cycle_isclose(e[1] - e[0]*axis, 0., 2.*np.pi/order) else \
-                    (e[0], int(round((e[1] - e[0]*axis) * order / (2. * np.pi))))
+                    (e[0], int(round((e[1] - e[0]*axis) * order / (2. * np.pi))) % order)
             else:
                 raise ValueError(f"id '{id}' not recognized")
 
diff --git a/e2cnn/group/groups/so2group.py b/e2cnn/group/groups/so2group.py
index 62e0542..db9755b 100644
--- a/e2cnn/group/groups/so2group.py
+++ b/e2cnn/group/groups/so2group.py
@@ -143,7 +143,7 @@ class SO2(Group):
             sg = CyclicGroup(order)
             parent_mapping = lambda e, order=order: e*2*np.pi/order
             # child_mapping = lambda e, order=order: None if divmod(e, 2.*np.pi/order)[1] > 1e-15 else int(round(e * order / (2.*np.pi)))
-            child_mapping = lambda e, order=order: None if not utils.cycle_isclose(e, 0., 2.*np.pi/order) else int(round(e * order / (2.*np.pi)))
+            child_mapping = lambda e, order=order: None if not utils.cycle_isclose(e, 0., 2.*np.pi/order) else int(round(e * order / (2.*np.pi))) % order
 
             self._subgroups[id] = sg, parent_mapping, child_mapping
     
-- 
2.43.0


From c9ff39e2a6a0d7525193218d4abdbe66b40cf077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:07 +0000
Subject: [PATCH 02/49] fix: comparing representations of different size with
 the same name returns False instead of raising

---
 e2cnn/group/representation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index 1647f25..dd43d55 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -331,6 +331,7 @@ class Representation:
         
         return (self.name == other.name
                 and self.group == other.group
+                and self.size == other.size
                 and np.allclose(self.change_of_basis, other.change_of_basis)
                 and self.irreps == other.irreps
                 and self.supported_nonlinearities == other.supported_nonlinearities)
-- 
2.43.0


From 888255023da84091c319e3ff6ccc1d413ddda365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:17 +0000
Subject: [PATCH 03/49] fix: induction from SO(2) to O(2) uses np.float which
 numpy removed

---
 e2cnn/group/groups/o2group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 4624c74..f57885d 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -445,7 +445,7 @@ class O2(Group):
             
             size = P.size
             
-            v = np.zeros((repr.size, size), dtype=np.float)
+            v = np.zeros((repr.size, size), dtype=float)
 
             def build_commuting_matrix(rho, t):
                 k = rho.attributes["frequency"]
-- 
2.43.0


From 53f84c499cfcab3f9ae691e827e35fc69796db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:57 +0000
Subject: [PATCH 04/49] fix: directsum with a change of basis does not
 advertise nonlinearities which the change of basis breaks

---
 e2cnn/group/representation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index dd43d55..f590b00 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -466,6 +466,15 @@ def directsum(reprs: List[e2cnn.group.Representation],
 
     supported_nonlinearities = set.intersection(*[r.supported_nonlinearities for r in reprs])
     
+    if not np.allclose(change_of_basis, cob):
+        # a change of basis mixes the channels of the fields: in general, only the non-linearities which rescale
+        # a whole field by an invariant scalar (or, if the new basis is orthonormal, by its norm) remain equivariant
+        cob_matrix = change_of_basis @ cob_inv
+        preserved = {'gated'}
+        if np.allclose(cob_matrix @ cob_matrix.T, np.eye(size)):
+            preserved.add('norm')
+        supported_nonlinearities = supported_nonlinearities & preserved
+    
     return Representation(group, name, irreps, change_of_basis, supported_nonlinearities, change_of_basis_inv=change_of_basis_inv)
 
 
-- 
2.43.0


From 8a6136ef3e2e2f4127d9f383fdce1f4169941a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:45 +0000
Subject: [PATCH 05/49] fix: restricting O(2) representations with frequencies
 above the subgroup's maximum frequency

---
 e2cnn/group/groups/o2group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index f57885d..e965800 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -258,7 +258,7 @@ class O2(Group):
         if id[0] is not None and id[1] == -1:
             
             change_of_basis = np.eye(irr.size)
-            irreps.append(irr.name)
+            irreps.append(sg.irrep(irr.attributes["flip_frequency"], irr.attributes["frequency"]).name)
 
             if irr.size == 2:
                 f = irr.attributes["frequency"]
@@ -266,7 +266,7 @@ class O2(Group):
 
         elif id[0] is None and id[1] == -1:
             f = irr.attributes["frequency"]
-            irreps.append(f"irrep_{f}")
+            irreps.append(sg.irrep(f).name)
             change_of_basis = np.eye(irr.size)
             
         elif id[0] is not None and id[1] == 1:
-- 
2.43.0


From af8123e506d8025fd279ca44db441dd3ebb8e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:45 +0000
Subject: [PATCH 06/49] fix: disentangled pieces do not advertise sub-field
 nonlinearities whose sub-fields were split

---
 e2cnn/group/representation.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index f590b00..2dd8ca9 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -600,11 +600,21 @@ def disentangle(repr: Representation) -> Tuple[np.ndarray, List[Representation]]
         
         new_cob = repr.change_of_basis[np.ix_(row_indices, col_indices)]
         
+        # non-linearities acting on sub-fields are only supported if no sub-field has been split
+        supported_nonlinearities = []
+        for nl in repr.supported_nonlinearities:
+            if nl.startswith('induced_norm') or nl.startswith('induced_gated'):
+                k = int(nl.split('_')[-1])
+                subfields = sorted({r // k for r in row_indices})
+                if row_indices != [f * k + i for f in subfields for i in range(k)]:
+                    continue
+            supported_nonlinearities.append(nl)
+        
         field_repr = Representation(repr.group,
                                       f"{repr.name}_{block}",
                                       [irreps[id].name for id in irreps_indices],
                                       new_cob,
-                                      repr.supported_nonlinearities)
+                                      supported_nonlinearities)
         representations.append(field_repr)
 
         next_position = current_position + len(row_indices)
-- 
2.43.0


From a3625a1d897e8ac013d47aaf54f374fed597f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:50 +0000
Subject: [PATCH 07/49] fix: rotations by multiples of 90 degrees are exact up
 to rounding errors of the angle

---
 e2cnn/gspaces/r2/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/gspaces/r2/utils.py b/e2cnn/gspaces/r2/utils.py
index 126bfef..2d3f6f7 100644
--- a/e2cnn/gspaces/r2/utils.py
+++ b/e2cnn/gspaces/r2/utils.py
@@ -6,11 +6,11 @@ from scipy.ndimage import rotate
 
 def rotate_array(x, angle):
     k = 2 * angle / np.pi
-    if k.is_integer():
+    if np.isclose(k, np.round(k), rtol=0., atol=1e-9):
         # Rotations by 180 and 270 degrees seem to be not perfect using `ndimage.rotate` and can therefore
         # make some tests fail.
         # For this reason, we use `np.rot90` to perform rotations by multiples of 90 degrees without interpolation
-        return np.rot90(x, k, axes=(-2, -1))
+        return np.rot90(x, int(np.round(k)), axes=(-2, -1))
     else:
         return rotate(x, angle * 180.0 / np.pi, (-2, -1), reshape=False, order=2)
 
-- 
2.43.0


From 785cbd3dd4a72b8b102454847322279dd3a82263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:56 +0000
Subject: [PATCH 08/49] fix: kernel bases limited only by the frequency offset
 contain every kernel once

---
 e2cnn/kernels/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/kernels/utils.py b/e2cnn/kernels/utils.py
index 37c19a4..7741eb9 100644
--- a/e2cnn/kernels/utils.py
+++ b/e2cnn/kernels/utils.py
@@ -34,7 +34,7 @@ def offset_iterator(base_frequency, N, maximum_offset=None, maximum_frequency=No
             min_offset = (minimum_frequency - base_frequency) / N
             max_offset = (maximum_frequency - base_frequency) / N
         else:
-            min_offset = -10000
+            min_offset = -10000 if not non_negative else (minimum_frequency - base_frequency) / N
             max_offset = 10000
             
         if maximum_offset is not None:
-- 
2.43.0


From e6792458d7d7b9c7ad7104d08f20e604bf244908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:50 +0000
Subject: [PATCH 09/49] fix: bases for different reflection axes or
 discretizations are not equal (layers shared each other's cached filters)

---
 e2cnn/diffops/basis.py           | 2 +-
 e2cnn/diffops/irreps_basis.py    | 6 +++---
 e2cnn/diffops/steerable_basis.py | 2 +-
 e2cnn/kernels/irreps_basis.py    | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/e2cnn/diffops/basis.py b/e2cnn/diffops/basis.py
index e23ad7f..c83b5d1 100644
--- a/e2cnn/diffops/basis.py
+++ b/e2cnn/diffops/basis.py
@@ -195,7 +195,7 @@ class LaplaceProfile(DiffopBasis):
 
     def __eq__(self, other):
         if isinstance(other, LaplaceProfile):
-            return self.max_power == other.max_power
+            return self.max_power == other.max_power and self.disc == other.disc
         else:
             return False
 
diff --git a/e2cnn/diffops/irreps_basis.py b/e2cnn/diffops/irreps_basis.py
index 2077fab..49c9d30 100644
--- a/e2cnn/diffops/irreps_basis.py
+++ b/e2cnn/diffops/irreps_basis.py
@@ -579,9 +579,9 @@ class R2FlipsDiscreteRotationsSolution(DiffopBasis):
         return attr
 
     def __eq__(self, other):
-        if not isinstance(other, R2DiscreteRotationsSolution):
+        if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -888,7 +888,7 @@ class R2FlipsContinuousRotationsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
diff --git a/e2cnn/diffops/steerable_basis.py b/e2cnn/diffops/steerable_basis.py
index 1823bed..2b9f8bf 100644
--- a/e2cnn/diffops/steerable_basis.py
+++ b/e2cnn/diffops/steerable_basis.py
@@ -238,7 +238,7 @@ class SteerableDiffopBasis(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, SteerableDiffopBasis):
             return False
-        elif self.in_repr != other.in_repr or self.out_repr != other.out_repr:
+        elif self.in_repr != other.in_repr or self.out_repr != other.out_repr or self.disc != other.disc:
             return False
         else:
             sbk1 = sorted(self.irreps_bases.keys())
diff --git a/e2cnn/kernels/irreps_basis.py b/e2cnn/kernels/irreps_basis.py
index f4af163..493ee43 100644
--- a/e2cnn/kernels/irreps_basis.py
+++ b/e2cnn/kernels/irreps_basis.py
@@ -881,7 +881,7 @@ class R2FlipsDiscreteRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -1063,7 +1063,7 @@ class R2FlipsContinuousRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
-- 
2.43.0


From 019d08de8d7903d4bf8bd0b9d229e85c5aabf6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:50 +0000
Subject: [PATCH 10/49] fix: the cached bases of a space are distinguished by
 the representations, the Laplacian power and the discretization

---
 e2cnn/gspaces/r2/general_r2.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/e2cnn/gspaces/r2/general_r2.py b/e2cnn/gspaces/r2/general_r2.py
index b0f6f8a..e59619b 100644
--- a/e2cnn/gspaces/r2/general_r2.py
+++ b/e2cnn/gspaces/r2/general_r2.py
@@ -114,16 +114,16 @@ class GeneralOnR2(GSpace):
         key["rings"] = tuple(rings)
         key = tuple(sorted(key.items()))
 
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
             # TODO - we could use a flag in the args to choose whether to store it or not
             
             basis = self._basis_generator(in_repr, out_repr, rings, sigma, **kwargs)
        
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
 
         # return the dictionary with all the basis built for this filter size
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
 
     def build_diffop_basis(self,
                            in_repr: Representation,
@@ -185,18 +185,20 @@ class GeneralOnR2(GSpace):
         
         # build the key
         key = dict(**kwargs)
+        key["max_power"] = max_power
+        key["discretization"] = discretization
         key = tuple(sorted(key.items()))
 
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
             # TODO - we could use a flag in the args to choose whether to store it or not
             
             basis = self._diffop_basis_generator(in_repr, out_repr, max_power, discretization, **kwargs)
        
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
 
         # return the dictionary with all the basis built for this filter size
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
     
     @abstractmethod
     def _basis_generator(self,
-- 
2.43.0


From 157f03b3c39c9f724bd1e0c3c6dee8a50bb5f737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:59 +0000
Subject: [PATCH 11/49] fix: blocks with a single basis element (e.g. 1x1
 kernels) could not be built with recent PyTorch

---
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index 53d4ea2..b92b9e6 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -57,11 +57,6 @@ class SingleBlockBasisExpansion(BasisExpansion):
         # and filter out the basis elements discarded by the filter
         sampled_basis = torch.Tensor(basis.sample_masked(points, mask=mask)).permute(2, 0, 1, 3)
 
-        # DEPRECATED FROM PyTorch 1.2
-        # PyTorch 1.2 suggests using BoolTensor instead of ByteTensor for boolean indexing
-        # but BoolTensor have been introduced only in PyTorch 1.2
-        # Hence, for the moment we use ByteTensor
-        mask = mask.astype(np.uint8)
         mask = torch.tensor(mask)
 
         # normalize the basis
@@ -77,7 +72,7 @@ class SingleBlockBasisExpansion(BasisExpansion):
         sampled_basis = sampled_basis[norms, ...]
         
         full_mask = torch.zeros_like(mask)
-        full_mask[mask] = norms.to(torch.uint8)
+        full_mask[mask] = norms
         self._mask = full_mask
 
         self.attributes = [attr for b, attr in enumerate(attributes) if norms[b]]
-- 
2.43.0


From ce456949e9d2972ef2e225b63c0d22e3d1fe9421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:37 +0000
Subject: [PATCH 12/49] fix: finite difference stencils are ordered like the
 points they are sampled on (R2Diffop was not equivariant to reflections)

---
 e2cnn/diffops/basis.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/e2cnn/diffops/basis.py b/e2cnn/diffops/basis.py
index c83b5d1..36ac76d 100644
--- a/e2cnn/diffops/basis.py
+++ b/e2cnn/diffops/basis.py
@@ -144,6 +144,12 @@ class DiffopBasis(Basis):
                         method=self.disc.method,
                     )
 
+        if self.disc.method == "fd":
+            # the finite difference stencils are indexed by the (increasing) x and y coordinates, while the points
+            # form a grid whose rows have decreasing y coordinates and whose columns have increasing x coordinates
+            basis = basis.reshape(basis.shape[:-1] + (len(np.unique(points[0])), len(np.unique(points[1]))))
+            basis = np.rot90(basis, 1, (-2, -1)).reshape(basis.shape[:-2] + (num_points, ))
+
         # Finally, we move the len_basis axis to the third position
         basis = basis.transpose(1, 2, 0, 3)
 
-- 
2.43.0


From a1ed396b858ffba04453ba3333d0e3b39f4c69ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:56 +0000
Subject: [PATCH 13/49] fix: load_cache makes the stored discretizations
 available, store_cache accepts a path without directory

---
 e2cnn/diffops/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/e2cnn/diffops/utils.py b/e2cnn/diffops/utils.py
index 8a0ffe5..5d0bfde 100644
--- a/e2cnn/diffops/utils.py
+++ b/e2cnn/diffops/utils.py
@@ -40,7 +40,7 @@ def load_cache(path: str = "./.e2cnn_cache/diffops.pickle"):
     if os.path.exists(path):
         print("Loading cached Diffops")
         with open(path, "rb") as f:
-            _DIFFOP_CACHE = pickle.load(f)
+            _DIFFOP_CACHE.update(pickle.load(f))
     else:
         print("Diffop cache not found, skipping")
 
@@ -56,7 +56,8 @@ def store_cache(path: str = "./.e2cnn_cache/diffops.pickle"):
         
     """
     directory = os.path.dirname(path)
-    os.makedirs(directory, exist_ok=True)
+    if directory:
+        os.makedirs(directory, exist_ok=True)
     with open(path, "w+b") as f:
         pickle.dump(_DIFFOP_CACHE, f)
 
-- 
2.43.0


From 9ce3d96b20f9e9dc472ae1042b319a8a554bb174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:19 +0000
Subject: [PATCH 14/49] fix: index buffers of interleaved fields could not be
 loaded from a state dict

---
 e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
index 21e7b20..edd6c9d 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
@@ -138,8 +138,9 @@ class BlocksBasisExpansion(BasisExpansion):
 
             else:
                 out_indices, in_indices = torch.meshgrid([_out_indices[io_pair[1]], _in_indices[io_pair[0]]])
-                in_indices = in_indices.reshape(-1)
-                out_indices = out_indices.reshape(-1)
+                # `reshape` may return a view with overlapping memory, which can not be loaded from a state dict
+                in_indices = in_indices.reshape(-1).contiguous()
+                out_indices = out_indices.reshape(-1).contiguous()
                 
                 # register the indices tensors and the bases tensors as parameters of this module
                 self.register_buffer('in_indices_{}'.format(io_pair), in_indices)
-- 
2.43.0


From ba52d7886b2f116ecadb053640720a4cd26fb826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:19 +0000
Subject: [PATCH 15/49] fix: the expanded bias of a fresh grouped
 R2ConvTransposed has the size of the output

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index 2abfea9..b3a5b35 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -145,7 +145,7 @@ class R2ConvTransposed(EquivariantModule):
                 
                 self.register_buffer("bias_expansion", bias_expansion)
                 self.bias = Parameter(torch.zeros(trivials), requires_grad=True)
-                self.register_buffer("expanded_bias", torch.zeros(out_type.size))
+                self.register_buffer("expanded_bias", torch.zeros(self.out_type.size))
             else:
                 self.bias = None
                 self.expanded_bias = None
-- 
2.43.0


From 76d34ffc5f2d16b511ace40a0ab92c217f27316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:19 +0000
Subject: [PATCH 16/49] fix: GNormBatchNorm failed on fields whose change of
 basis yields a non-contiguous tensor

---
 e2cnn/nn/modules/batchnormalization/gnorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/gnorm.py b/e2cnn/nn/modules/batchnormalization/gnorm.py
index 5dfbc52..1ad0dd5 100644
--- a/e2cnn/nn/modules/batchnormalization/gnorm.py
+++ b/e2cnn/nn/modules/batchnormalization/gnorm.py
@@ -257,9 +257,9 @@ class GNormBatchNorm(EquivariantModule):
                 normalized = torch.einsum("ds,bcsxy->bcdxy", (cob, normalized))
                 
             if not self._contiguous[name]:
-                output[:, indices, ...] = normalized.view(b, -1, h, w)
+                output[:, indices, ...] = normalized.reshape(b, -1, h, w)
             else:
-                output[:, indices[0]:indices[1], ...] = normalized.view(b, -1, h, w)
+                output[:, indices[0]:indices[1], ...] = normalized.reshape(b, -1, h, w)
 
             # if self._contiguous[name]:
             #     slice2 = output[:, indices[0]:indices[1], ...]
-- 
2.43.0


From 2661e40d2e3686777584f784087b9dd740278954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:00 +0000
Subject: [PATCH 17/49] fix: vector-field nonlinearity with several fields over
 C2 (1-dimensional output irrep)

---
 e2cnn/nn/modules/nonlinearities/vectorfield.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/nonlinearities/vectorfield.py b/e2cnn/nn/modules/nonlinearities/vectorfield.py
index 41054b6..83d543f 100644
--- a/e2cnn/nn/modules/nonlinearities/vectorfield.py
+++ b/e2cnn/nn/modules/nonlinearities/vectorfield.py
@@ -86,8 +86,11 @@ class VectorFieldNonLinearity(EquivariantModule):
         
         # to build the output vectors, take the cosine and the sine of the argmax angle
         # and multiply the 2-dimensional vector by the activation value
-        output[:, ::2, ...] = torch.cos(max_angles) * max_activations
-        output[:, 1::2, ...] = torch.sin(max_angles) * max_activations
+        # (with only 2 rotations, the frequency 1 irrep is 1-dimensional and contains only the cosine)
+        size = self.out_type.representations[0].size
+        output[:, ::size, ...] = torch.cos(max_angles) * max_activations
+        if size > 1:
+            output[:, 1::size, ...] = torch.sin(max_angles) * max_activations
         
         # wrap the result in a GeometricTensor
         return GeometricTensor(output, self.out_type)
-- 
2.43.0


From 9270c59eacd0437e7a74a59bb59289a9a9656dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:54 +0000
Subject: [PATCH 18/49] fix: decomposing a representation on which every
 element acts as the same scalars (e.g. concatenated trivial fields over large
 groups)

---
 e2cnn/group/representation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index 2dd8ca9..d0bf43b 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -1212,11 +1212,15 @@ def compute_change_of_basis(representation: Dict[Any, np.matrix],
     
     # the kernel space of this matrix contains the solutions of our problem
     
-    if M.shape[1] == 1:
-        assert np.count_nonzero(M.todense()) == 0
-        return np.ones([1, 1])
+    shape = list(representation.values())[0].shape
+    
+    if M.count_nonzero() == 0:
+        # the representation already is the direct sum of the irreps (and any matrix commutes with it)
+        return np.eye(*shape)
     else:
         
+        assert M.shape[1] > 1
+        
         # compute the basis of the kernel
         if len(representation) > 10:
             basis = null(M, True)
@@ -1225,9 +1229,6 @@ def compute_change_of_basis(representation: Dict[Any, np.matrix],
         
         assert np.allclose(M @ basis, np.zeros([M.shape[0], basis.shape[1]]))
         
-        # reshape it to get the Change of Basis matrix
-        shape = list(representation.values())[0].shape
-        
         # np.set_printoptions(precision=2, threshold=2 * len(representation)**2, suppress=True,
         #                     linewidth=len(representation) * 10 + 3)
         
-- 
2.43.0


From 8a4cf3feef153492b68882ba4b18f922cb2c33f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:04 +0000
Subject: [PATCH 19/49] fix: GNormBatchNorm computes the variance of invariant
 components from centered values (cancellation gave wrong or negative
 variances)

---
 e2cnn/nn/modules/batchnormalization/gnorm.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/gnorm.py b/e2cnn/nn/modules/batchnormalization/gnorm.py
index 1ad0dd5..cb6868c 100644
--- a/e2cnn/nn/modules/batchnormalization/gnorm.py
+++ b/e2cnn/nn/modules/batchnormalization/gnorm.py
@@ -297,13 +297,14 @@ class GNormBatchNorm(EquivariantModule):
         # compute the mean of the trivial fields
         trivial_means = t[:, :, trivial_idxs, ...].view(b, c, l, x, y).sum(dim=(0, 3, 4), keepdim=False).detach() / N
         
-        # compute the mean of squares of all channels
-        vars = (t ** 2).view(b, c, s, x, y).sum(dim=(0, 3, 4), keepdim=False).detach() / N
-        
         # For the non-trivial fields the mean of the fields is 0, so we can compute the variance as the mean of the
         # norms squared.
-        # For trivial channels, we need to subtract the squared mean
-        vars[:, trivial_idxs] -= trivial_means**2
+        # For trivial channels, we need to subtract the mean first
+        # (subtracting the squared mean afterwards is inaccurate and can even give negative variances)
+        centered = self._shift(t.detach(), -1*trivial_means, name=name, out=None)
+        
+        # compute the mean of squares of all channels
+        vars = (centered ** 2).view(b, c, s, x, y).sum(dim=(0, 3, 4), keepdim=False) / N
         
         # aggregate the squared means of the channels which belong to the same irrep
         vars = torch.einsum("io,ci->co", (vars_aggregator, vars))
-- 
2.43.0


From 8d166d72d3c4620d334970e345bd1fc7b5ccfa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:04 +0000
Subject: [PATCH 20/49] fix: reset_parameters of the norm batch normalisations
 restores the initial weights and supports affine=False

---
 e2cnn/nn/modules/batchnormalization/induced_norm.py | 7 ++++---
 e2cnn/nn/modules/batchnormalization/norm.py         | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/induced_norm.py b/e2cnn/nn/modules/batchnormalization/induced_norm.py
index d3996ba..888b4da 100644
--- a/e2cnn/nn/modules/batchnormalization/induced_norm.py
+++ b/e2cnn/nn/modules/batchnormalization/induced_norm.py
@@ -152,9 +152,10 @@ class InducedNormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.fill_(1)
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.fill_(1)
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
diff --git a/e2cnn/nn/modules/batchnormalization/norm.py b/e2cnn/nn/modules/batchnormalization/norm.py
index f952953..01267f8 100644
--- a/e2cnn/nn/modules/batchnormalization/norm.py
+++ b/e2cnn/nn/modules/batchnormalization/norm.py
@@ -139,9 +139,10 @@ class NormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.uniform_()
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.fill_(1)
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
-- 
2.43.0


From 9d5184d01869a28165e4cc69291deec6f488725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:16 +0000
Subject: [PATCH 21/49] fix: announced output shapes of the pooling modules
 (ceil_mode, average and adaptive pooling), NormMaxPool with ceil_mode,
 exported ceil_mode

---
 e2cnn/nn/modules/pooling/norm_max.py           | 18 ++++++++++++++----
 .../modules/pooling/pointwise_adaptive_avg.py  |  2 +-
 .../modules/pooling/pointwise_adaptive_max.py  |  2 +-
 e2cnn/nn/modules/pooling/pointwise_avg.py      |  9 +++++++--
 e2cnn/nn/modules/pooling/pointwise_max.py      |  7 ++++++-
 5 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/e2cnn/nn/modules/pooling/norm_max.py b/e2cnn/nn/modules/pooling/norm_max.py
index 41113a0..caff110 100644
--- a/e2cnn/nn/modules/pooling/norm_max.py
+++ b/e2cnn/nn/modules/pooling/norm_max.py
@@ -221,10 +221,20 @@ class NormMaxPool(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = math.floor(
-            (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1)
-        wo = math.floor(
-            (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1)
+        ho = (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
+        wo = (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
+        
+        if self.ceil_mode:
+            ho = math.ceil(ho)
+            wo = math.ceil(wo)
+            # as in PyTorch, the last window must start inside the input or the left padding
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
+        else:
+            ho = math.floor(ho)
+            wo = math.floor(wo)
 
         return b, self.out_type.size, ho, wo
         
diff --git a/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py b/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
index e44d2a9..b12d034 100644
--- a/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
+++ b/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
@@ -78,7 +78,7 @@ class PointwiseAdaptiveAvgPool(EquivariantModule):
     
         b, c, hi, wi = input_shape
 
-        return b, self.out_type.size, self.output_size, self.output_size
+        return b, self.out_type.size, self.output_size[0], self.output_size[1]
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
diff --git a/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py b/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
index 403b611..f545229 100644
--- a/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
@@ -78,7 +78,7 @@ class PointwiseAdaptiveMaxPool(EquivariantModule):
     
         b, c, hi, wi = input_shape
 
-        return b, self.out_type.size, self.output_size, self.output_size
+        return b, self.out_type.size, self.output_size[0], self.output_size[1]
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
diff --git a/e2cnn/nn/modules/pooling/pointwise_avg.py b/e2cnn/nn/modules/pooling/pointwise_avg.py
index ce26012..35d5e44 100644
--- a/e2cnn/nn/modules/pooling/pointwise_avg.py
+++ b/e2cnn/nn/modules/pooling/pointwise_avg.py
@@ -102,12 +102,17 @@ class PointwiseAvgPool(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
-        wo = (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
+        ho = (hi + 2 * self.padding[0] - (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
+        wo = (wi + 2 * self.padding[1] - (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
         
         if self.ceil_mode:
             ho = math.ceil(ho)
             wo = math.ceil(wo)
+            # as in PyTorch, the last window must start inside the input or the left padding
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
         else:
             ho = math.floor(ho)
             wo = math.floor(wo)
diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index cbc9e92..eaee87c 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -119,6 +119,11 @@ class PointwiseMaxPool(EquivariantModule):
         if self.ceil_mode:
             ho = math.ceil(ho)
             wo = math.ceil(wo)
+            # as in PyTorch, the last window must start inside the input or the left padding
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
         else:
             ho = math.floor(ho)
             wo = math.floor(wo)
@@ -138,7 +143,7 @@ class PointwiseMaxPool(EquivariantModule):
     
         self.eval()
     
-        return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation).eval()
+        return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation, ceil_mode=self.ceil_mode).eval()
 
 
 class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
-- 
2.43.0


From 330fb7cf258f94f75a2c72728443b64d4530f9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:16 +0000
Subject: [PATCH 22/49] fix: PointwiseMaxPoolAntialiased applied the padding
 twice

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index eaee87c..b24a984 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -212,7 +212,8 @@ class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
         _filter = _filter.view(1, 1, filter_size, filter_size).repeat((in_type.size, 1, 1, 1))
 
         self.register_buffer('filter', _filter)
-        self._pad = tuple(p + int((filter_size-1)//2) for p in self.padding)
+        # the padding of the pooling window is already added by the max-pooling; the blurring preserves the resolution
+        self._pad = (int((filter_size-1)//2),) * 2
 
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
-- 
2.43.0


From bf0e127375233eb44a177da122d01d0494319288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:16 +0000
Subject: [PATCH 23/49] fix: NormPool and NormMaxPool reject representations
 which do not preserve the norm

---
 e2cnn/nn/modules/invariantmaps/norm.py | 4 ++++
 e2cnn/nn/modules/pooling/norm_max.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/e2cnn/nn/modules/invariantmaps/norm.py b/e2cnn/nn/modules/invariantmaps/norm.py
index 92d1482..f2b01df 100644
--- a/e2cnn/nn/modules/invariantmaps/norm.py
+++ b/e2cnn/nn/modules/invariantmaps/norm.py
@@ -32,6 +32,10 @@ class NormPool(EquivariantModule):
         
         super(NormPool, self).__init__()
 
+        for r in in_type.representations:
+            assert 'norm' in r.supported_nonlinearities, \
+                'Error! Representation "{}" does not support "norm" non-linearity'.format(r.name)
+
         self.space = in_type.gspace
         self.in_type = in_type
         
diff --git a/e2cnn/nn/modules/pooling/norm_max.py b/e2cnn/nn/modules/pooling/norm_max.py
index caff110..fd481cd 100644
--- a/e2cnn/nn/modules/pooling/norm_max.py
+++ b/e2cnn/nn/modules/pooling/norm_max.py
@@ -52,6 +52,10 @@ class NormMaxPool(EquivariantModule):
         
         super(NormMaxPool, self).__init__()
 
+        for r in in_type.representations:
+            assert 'norm' in r.supported_nonlinearities, \
+                'Error! Representation "{}" does not support "norm" non-linearity'.format(r.name)
+
         self.space = in_type.gspace
         self.in_type = in_type
         self.out_type = in_type
-- 
2.43.0


From 99450472e57e2cd1a5482b44e544fcdbe90f1814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:47 +0000
Subject: [PATCH 24/49] fix: in-place FieldDropout on interleaved fields had no
 effect; p=1 gave NaN

---
 e2cnn/nn/modules/dropout/field.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/e2cnn/nn/modules/dropout/field.py b/e2cnn/nn/modules/dropout/field.py
index 9082c0d..6dfa3bd 100644
--- a/e2cnn/nn/modules/dropout/field.py
+++ b/e2cnn/nn/modules/dropout/field.py
@@ -32,11 +32,15 @@ def dropout_field(input: torch.Tensor, p: float, training: bool, inplace: bool):
         mask = mask.uniform_() > p
         mask = mask.to(torch.float)
         
+        # if p = 1 everything is dropped
+        if p < 1.:
+            mask /= 1. - p
+        
         if inplace:
-            input *= mask / (1. - p)
+            input *= mask
             return input
         else:
-            return input * mask / (1. - p)
+            return input * mask
     else:
         return input
 
@@ -154,9 +158,12 @@ class FieldDropout(EquivariantModule):
                     output[:, indices[0]:indices[1], ...] = out.view(shape)
             else:
                 # otherwise we have to use indexing
-                out = dropout_field(input[:, indices, ...].view(shape), self.p, self.training, self.inplace)
-                if not self.inplace:
-                    shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
+                # (which copies the data, so the result needs to be written back also when working in-place)
+                out = dropout_field(input[:, indices, ...].view(shape), self.p, self.training, False)
+                shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
+                if self.inplace:
+                    input[:, indices, ...] = out.view(shape)
+                else:
                     output[:, indices, ...] = out.view(shape)
             
         if self.inplace:
-- 
2.43.0


From fba658581c278cbe2aba56bbb17805f4fc7caa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:24 +0000
Subject: [PATCH 25/49] fix: convolutions with a non-zero padding mode can be
 exported with PyTorch 2 (the version check compared the minor version alone)

---
 e2cnn/nn/modules/r2_conv/r2convolution.py | 2 +-
 e2cnn/nn/modules/r2_conv/r2diffop.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index 51c760b..f195aa1 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -511,7 +511,7 @@ class R2Conv(EquivariantModule):
 
         if self.padding_mode not in ['zeros']:
             x, y = torch.__version__.split('.')[:2]
-            if int(x) < 1 or int(y) < 5:
+            if (int(x), int(y)) < (1, 5):
                 if self.padding_mode == 'circular':
                     raise ImportError(
                         "'{}' padding mode had some issues in old `torch` versions. Therefore, we only support conversion from version 1.5 but only version {} is installed.".format(
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 1b63ae2..f1f52fd 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -616,7 +616,7 @@ class R2Diffop(EquivariantModule):
 
         if self.padding_mode not in ['zeros']:
             x, y = torch.__version__.split('.')[:2]
-            if int(x) < 1 or int(y) < 5:
+            if (int(x), int(y)) < (1, 5):
                 if self.padding_mode == 'circular':
                     raise ImportError(
                         "'{}' padding mode had some issues in old `torch` versions. Therefore, we only support conversion from version 1.5 but only version {} is installed.".format(
-- 
2.43.0


From 20f4582ce6d0430d19ed93dc5f4af9ab313eac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:24 +0000
Subject: [PATCH 26/49] fix: the exported transposed convolution keeps the
 output padding

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index b3a5b35..277445e 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -369,6 +369,7 @@ class R2ConvTransposed(EquivariantModule):
                                        self.out_type.size,
                                        self.kernel_size,
                                        padding=self.padding,
+                                       output_padding=self.output_padding,
                                        stride=self.stride,
                                        dilation=self.dilation,
                                        groups=self.groups,
-- 
2.43.0


From f2394f4c853cb1df0ef5e4dea447cdbeca2a335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:24 +0000
Subject: [PATCH 27/49] fix: announced output shape of the transposed
 convolution

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index 277445e..e9c4ee4 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -250,8 +250,8 @@ class R2ConvTransposed(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        ho = (hi - 1) * self.stride - 2 * self.padding + self.dilation * (self.kernel_size - 1) + self.output_padding + 1
+        wo = (wi - 1) * self.stride - 2 * self.padding + self.dilation * (self.kernel_size - 1) + self.output_padding + 1
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From 4b33f147281d14228e7ba2ae8dc93af5662559ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:24 +0000
Subject: [PATCH 28/49] fix: exported upsampling uses the target size

---
 e2cnn/nn/modules/r2upsampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/e2cnn/nn/modules/r2upsampling.py b/e2cnn/nn/modules/r2upsampling.py
index 7d82754..9a776f4 100644
--- a/e2cnn/nn/modules/r2upsampling.py
+++ b/e2cnn/nn/modules/r2upsampling.py
@@ -201,12 +201,14 @@ class R2Upsampling(EquivariantModule):
         
         if self._align_corners is not None:
             upsample = torch.nn.Upsample(
+                size=self._size,
                 scale_factor=self._scale_factor,
                 mode=self._mode,
                 align_corners=self._align_corners
             )
         else:
             upsample = torch.nn.Upsample(
+                size=self._size,
                 scale_factor=self._scale_factor,
                 mode=self._mode,
             )
-- 
2.43.0


From 403d3f81fe727dcd03b26ec7b0bae5e47e983727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:24 +0000
Subject: [PATCH 29/49] fix: exported modules do not share memory with the
 equivariant module

---
 e2cnn/nn/modules/batchnormalization/inner.py | 2 +-
 e2cnn/nn/modules/r2_conv/r2convolution.py    | 4 ++--
 e2cnn/nn/modules/r2_conv/r2diffop.py         | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/inner.py b/e2cnn/nn/modules/batchnormalization/inner.py
index 145d36d..3c95a80 100644
--- a/e2cnn/nn/modules/batchnormalization/inner.py
+++ b/e2cnn/nn/modules/batchnormalization/inner.py
@@ -200,7 +200,7 @@ class InnerBatchNorm(EquivariantModule):
             
             batchnorm.running_var.data[start:end] = bn.running_var.data.view(n, 1).expand(n, s).reshape(-1)
             batchnorm.running_mean.data[start:end] = bn.running_mean.data.view(n, 1).expand(n, s).reshape(-1)
-            batchnorm.num_batches_tracked.data = bn.num_batches_tracked.data
+            batchnorm.num_batches_tracked.data = bn.num_batches_tracked.data.clone()
 
             if num_batches_tracked is None:
                 num_batches_tracked = bn.num_batches_tracked.data
diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index f195aa1..ffa1845 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -539,9 +539,9 @@ class R2Conv(EquivariantModule):
                                bias=has_bias)
 
         # set the filter and the bias
-        conv.weight.data = _filter.data
+        conv.weight.data = _filter.data.clone()
         if has_bias:
-            conv.bias.data = _bias.data
+            conv.bias.data = _bias.data.clone()
         
         return conv
 
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index f1f52fd..71bf220 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -644,9 +644,9 @@ class R2Diffop(EquivariantModule):
                                bias=has_bias)
 
         # set the filter and the bias
-        conv.weight.data = _filter.data
+        conv.weight.data = _filter.data.clone()
         if has_bias:
-            conv.bias.data = _bias.data
+            conv.bias.data = _bias.data.clone()
         
         return conv
 
-- 
2.43.0


From c8cad1be464f9344839fa83a750e9f589b49a83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:33 +0000
Subject: [PATCH 30/49] fix: announced output shape of convolutions with a
 padding per axis

---
 e2cnn/nn/modules/r2_conv/r2convolution.py | 7 +++++--
 e2cnn/nn/modules/r2_conv/r2diffop.py      | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index ffa1845..2b7d05a 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -400,8 +400,11 @@ class R2Conv(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        # the padding can differ between the two axes
+        ph, pw = self.padding if isinstance(self.padding, tuple) else (self.padding, self.padding)
+
+        ho = math.floor((hi + 2 * ph - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        wo = math.floor((wi + 2 * pw - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
 
         return b, self.out_type.size, ho, wo
         
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 71bf220..2ff61c0 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -505,8 +505,11 @@ class R2Diffop(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        # the padding can differ between the two axes
+        ph, pw = self.padding if isinstance(self.padding, tuple) else (self.padding, self.padding)
+
+        ho = math.floor((hi + 2 * ph - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        wo = math.floor((wi + 2 * pw - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From c22a6c5e6052355cbd4480923838522aa287d3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:51 +0000
Subject: [PATCH 31/49] fix: fields of different representations which share a
 name were confused (convolutions, restriction, disentangling and batch
 normalisation of such types were not equivariant)

---
 e2cnn/nn/field_type.py                        | 33 +++++++++++++++++--
 e2cnn/nn/modules/batchnormalization/gnorm.py  | 28 ++++++++--------
 e2cnn/nn/modules/disentangle_module.py        | 18 +++++-----
 .../modules/nonlinearities/induced_gated1.py  |  8 ++---
 .../modules/r2_conv/basisexpansion_blocks.py  | 26 +++++++--------
 5 files changed, 69 insertions(+), 44 deletions(-)

diff --git a/e2cnn/nn/field_type.py b/e2cnn/nn/field_type.py
index da617b9..8f8dd78 100644
--- a/e2cnn/nn/field_type.py
+++ b/e2cnn/nn/field_type.py
@@ -84,6 +84,10 @@ class FieldType:
 
         self._unique_representations = set(self.representations)
         
+        # a key identifying the representation of each field and the representation associated to each key.
+        # It is the name of the representation, but different representations sharing a name have different keys
+        self._fields_keys, self._representations_by_key = _identify_representations(self.representations)
+        
         self._representation = None
         
         self._field_start = None
@@ -265,11 +269,11 @@ class FieldType:
     
         # restrict each different base representation in the fiber representation
         restricted_reprs = {}
-        for r in self._unique_representations:
-            restricted_reprs[r.name] = self.gspace.fibergroup.restrict_representation(id, r)
+        for key, r in self._representations_by_key.items():
+            restricted_reprs[key] = self.gspace.fibergroup.restrict_representation(id, r)
     
         # for each field, retrieve the corresponding restricted representation
-        fields = [restricted_reprs[r.name] for r in self.representations]
+        fields = [restricted_reprs[key] for key in self._fields_keys]
     
         # build the restricted fiber representation
         rrepr = FieldType(subspace, fields)
@@ -478,3 +482,26 @@ class FieldType:
     #     blocks.append(representation[base_repr.name])
     #
     # return sparse.block_diag(blocks, format='csc').todense()
+
+
+def _identify_representations(representations: List[Representation]):
+    keys = []
+    by_key = {}
+    by_name = defaultdict(list)
+    
+    for r in representations:
+        same_name = by_name[r.name]
+        
+        for key in same_name:
+            if by_key[key] is r or by_key[key] == r:
+                break
+        else:
+            key = r.name
+            while key in by_key:
+                key += "'"
+            same_name.append(key)
+            by_key[key] = r
+        
+        keys.append(key)
+    
+    return keys, by_key
diff --git a/e2cnn/nn/modules/batchnormalization/gnorm.py b/e2cnn/nn/modules/batchnormalization/gnorm.py
index cb6868c..b1873c0 100644
--- a/e2cnn/nn/modules/batchnormalization/gnorm.py
+++ b/e2cnn/nn/modules/batchnormalization/gnorm.py
@@ -68,21 +68,21 @@ class GNormBatchNorm(EquivariantModule):
         ntrivials = 0
         position = 0
         last_field = None
-        for i, r in enumerate(self.in_type.representations):
+        for key, r in zip(self.in_type._fields_keys, self.in_type.representations):
             
             for irr in r.irreps:
                 if self.in_type.fibergroup.irreps[irr].is_trivial():
                     ntrivials += 1
             
-            if r.name != last_field:
-                if not r.name in self._contiguous:
-                    self._contiguous[r.name] = True
+            if key != last_field:
+                if not key in self._contiguous:
+                    self._contiguous[key] = True
                 else:
-                    self._contiguous[r.name] = False
+                    self._contiguous[key] = False
 
-            last_field = r.name
-            _indices[r.name] += list(range(position, position + r.size))
-            self._nfields[r.name] += 1
+            last_field = key
+            _indices[key] += list(range(position, position + r.size))
+            self._nfields[key] += 1
             position += r.size
         
         for name, contiguous in self._contiguous.items():
@@ -107,7 +107,7 @@ class GNormBatchNorm(EquivariantModule):
         # store for each field type the sizes and the indices of all its irreps, grouped by their size
         self._irreps_sizes = {}
         
-        for r in self.in_type._unique_representations:
+        for name, r in self.in_type._representations_by_key.items():
             p = 0
             irreps = defaultdict(lambda: [])
             trivials = []
@@ -125,8 +125,6 @@ class GNormBatchNorm(EquivariantModule):
             
             propagator = (aggregator > 0).clone().to(dtype=torch.float)
             
-            name = r.name
-            
             self._trivial_idxs[name] = torch.tensor(trivials, dtype=torch.long)
             self._irreps_sizes[name] = [(s, idxs) for s, idxs in irreps.items()]
             self._sizes.append((name, r.size))
@@ -138,14 +136,14 @@ class GNormBatchNorm(EquivariantModule):
             self.register_buffer(f'vars_aggregator_{name}', aggregator)
             self.register_buffer(f'vars_propagator_{name}', propagator)
         
-            running_var = torch.ones((self._nfields[r.name], len(r.irreps)), dtype=torch.float)
-            running_mean = torch.zeros((self._nfields[r.name], len(trivials)), dtype=torch.float)
+            running_var = torch.ones((self._nfields[name], len(r.irreps)), dtype=torch.float)
+            running_mean = torch.zeros((self._nfields[name], len(trivials)), dtype=torch.float)
             self.register_buffer(f'{name}_running_var', running_var)
             self.register_buffer(f'{name}_running_mean', running_mean)
             
             if self.affine:
-                weight = Parameter(torch.ones((self._nfields[r.name], len(r.irreps))), requires_grad=True)
-                bias = Parameter(torch.zeros((self._nfields[r.name], len(trivials))), requires_grad=True)
+                weight = Parameter(torch.ones((self._nfields[name], len(r.irreps))), requires_grad=True)
+                bias = Parameter(torch.zeros((self._nfields[name], len(trivials))), requires_grad=True)
                 self.register_parameter(f'{name}_weight', weight)
                 self.register_parameter(f'{name}_bias', bias)
             
diff --git a/e2cnn/nn/modules/disentangle_module.py b/e2cnn/nn/modules/disentangle_module.py
index a69688f..078adee 100644
--- a/e2cnn/nn/modules/disentangle_module.py
+++ b/e2cnn/nn/modules/disentangle_module.py
@@ -47,22 +47,22 @@ class DisentangleModule(EquivariantModule):
         _change_of_basis_matrices = {}
         self._sizes = {}
         
-        for r in self.in_type._unique_representations:
-            self._sizes[r.name] = r.size
+        for key, r in self.in_type._representations_by_key.items():
+            self._sizes[key] = r.size
             cob, reprs = disentangle(r)
-            disentangled_representations[r.name] = reprs
-            _change_of_basis_matrices[r.name] = torch.FloatTensor(cob)
-            self.register_buffer('change_of_basis_{}'.format(r.name), _change_of_basis_matrices[r.name])
+            disentangled_representations[key] = reprs
+            _change_of_basis_matrices[key] = torch.FloatTensor(cob)
+            self.register_buffer('change_of_basis_{}'.format(key), _change_of_basis_matrices[key])
 
         out_reprs = []
         self._nfields = defaultdict(int)
-        for r in self.in_type.representations:
-            self._nfields[r.name] += 1
-            out_reprs += disentangled_representations[r.name]
+        for key in self.in_type._fields_keys:
+            self._nfields[key] += 1
+            out_reprs += disentangled_representations[key]
 
         self.out_type = FieldType(self.in_type.gspace, out_reprs)
 
-        grouped_indices = indexes_from_labels(self.in_type, [r.name for r in self.in_type.representations])
+        grouped_indices = indexes_from_labels(self.in_type, self.in_type._fields_keys)
         
         self._order = []
         self._contiguous = {}
diff --git a/e2cnn/nn/modules/nonlinearities/induced_gated1.py b/e2cnn/nn/modules/nonlinearities/induced_gated1.py
index 9bd166b..5cb9f55 100644
--- a/e2cnn/nn/modules/nonlinearities/induced_gated1.py
+++ b/e2cnn/nn/modules/nonlinearities/induced_gated1.py
@@ -102,7 +102,7 @@ class InducedGatedNonLinearity1(EquivariantModule):
                     assert r.size == quotient_size
 
         subfield_sizes = {}
-        for g, r in zip(gates, in_type):
+        for g, r, key in zip(gates, in_type, in_type._fields_keys):
             if g == GATED_ID:
                 subfield_size = None
                 for nl in r.supported_nonlinearities:
@@ -112,7 +112,7 @@ class InducedGatedNonLinearity1(EquivariantModule):
                         subfield_size = int(nl.split('_')[-1])
                         assert r.size % subfield_size == 0
                         assert r.size // subfield_size == quotient_size
-                        subfield_sizes[r.name] = subfield_size
+                        subfield_sizes[key] = subfield_size
         
         self.quotient_size = quotient_size
         
@@ -129,11 +129,11 @@ class InducedGatedNonLinearity1(EquivariantModule):
 
         # group fields by their type (gated or gate) and their size, check if fields of the same type are
         # contiguous and retrieve the indices of the fields
-        for g, r in zip(gates, in_type.representations):
+        for g, r, key in zip(gates, in_type.representations, in_type._fields_keys):
             if g == GATES_ID:
                 type = g
             else:
-                type = r.size, subfield_sizes[r.name]
+                type = r.size, subfield_sizes[key]
                 self._nfields[type] += 1
 
             if type != last_type:
diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
index edd6c9d..f79968e 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
@@ -68,9 +68,9 @@ class BlocksBasisExpansion(BasisExpansion):
         
         # iterate through all different pairs of input/output representationions
         # and, for each of them, build a basis
-        for i_repr in in_type._unique_representations:
-            for o_repr in out_type._unique_representations:
-                reprs_names = (i_repr.name, o_repr.name)
+        for i_key, i_repr in in_type._representations_by_key.items():
+            for o_key, o_repr in out_type._representations_by_key.items():
+                reprs_names = (i_key, o_key)
                 try:
                     basis = basis_generator(i_repr, o_repr, **kwargs)
                     
@@ -87,7 +87,7 @@ class BlocksBasisExpansion(BasisExpansion):
         if len(_block_expansion_modules) == 0:
             print('WARNING! The basis for the block expansion of the filter is empty!')
 
-        self._n_pairs = len(in_type._unique_representations) * len(out_type._unique_representations)
+        self._n_pairs = len(in_type._representations_by_key) * len(out_type._representations_by_key)
 
         # the list of all pairs of input/output representations which don't have an empty basis
         self._representations_pairs = sorted(list(_block_expansion_modules.keys()))
@@ -190,7 +190,7 @@ class BlocksBasisExpansion(BasisExpansion):
             in_irreps_count = 0
             for i, i_repr in enumerate(self._in_type.representations):
             
-                if reprs_names == (i_repr.name, o_repr.name):
+                if reprs_names == (self._in_type._fields_keys[i], self._out_type._fields_keys[o]):
                     
                     if block_count == block_idx:
 
@@ -207,7 +207,7 @@ class BlocksBasisExpansion(BasisExpansion):
                     
                         # build the ids of the basis vectors
                         # add names and indices of the input and output fields
-                        id = '({}-{},{}-{})'.format(i_repr.name, i, o_repr.name, o)
+                        id = '({}-{},{}-{})'.format(reprs_names[0], i, reprs_names[1], o)
                         # add the original id in the block submodule
                         id += "_" + attr["id"]
                     
@@ -231,13 +231,13 @@ class BlocksBasisExpansion(BasisExpansion):
         out_block_counts = defaultdict(list)
         for o, o_repr in enumerate(self._out_type.representations):
             out_irreps_counts.append(out_irreps_counts[-1] + len(o_repr.irreps))
-            out_block_counts[o_repr.name].append(o)
+            out_block_counts[self._out_type._fields_keys[o]].append(o)
             
         in_irreps_counts = [0]
         in_block_counts = defaultdict(list)
         for i, i_repr in enumerate(self._in_type.representations):
             in_irreps_counts.append(in_irreps_counts[-1] + len(i_repr.irreps))
-            in_block_counts[i_repr.name].append(i)
+            in_block_counts[self._in_type._fields_keys[i]].append(i)
 
         # iterate through the different group of blocks
         # i.e., through all input/output pairs
@@ -407,10 +407,10 @@ def _retrieve_indices(type: FieldType):
     _count = defaultdict(int)
     _contiguous = {}
     
-    for repr in type.representations:
-        _indices[repr.name] += list(range(fiber_position, fiber_position + repr.size))
+    for key, repr in zip(type._fields_keys, type.representations):
+        _indices[key] += list(range(fiber_position, fiber_position + repr.size))
         fiber_position += repr.size
-        _count[repr.name] += 1
+        _count[key] += 1
     
     for name, indices in _indices.items():
         # _contiguous[o_name] = indices == list(range(indices[0], indices[0]+len(indices)))
@@ -433,7 +433,7 @@ def _compute_attrs_and_ids(in_type, out_type, block_submodules):
         in_irreps_count = 0
         for i, i_repr in enumerate(in_type.representations):
             
-            reprs_names = (i_repr.name, o_repr.name)
+            reprs_names = (in_type._fields_keys[i], out_type._fields_keys[o])
             
             # if a basis for the space of kernels between the current pair of representations exists
             if reprs_names in block_submodules:
@@ -444,7 +444,7 @@ def _compute_attrs_and_ids(in_type, out_type, block_submodules):
                 for attr in block_submodules[reprs_names].get_basis_info():
                     # build the ids of the basis vectors
                     # add names and indices of the input and output fields
-                    id = '({}-{},{}-{})'.format(i_repr.name, i, o_repr.name, o)
+                    id = '({}-{},{}-{})'.format(reprs_names[0], i, reprs_names[1], o)
                     # add the original id in the block submodule
                     id += "_" + attr["id"]
                     
-- 
2.43.0


From 8242d8cfa0ff6e4acf45aadbd11630b454cd37ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:51 +0000
Subject: [PATCH 32/49] fix: ReshuffleModule rejects lists which repeat fields

---
 e2cnn/nn/modules/reshuffle_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/reshuffle_module.py b/e2cnn/nn/modules/reshuffle_module.py
index 7aac8d6..7d022e5 100644
--- a/e2cnn/nn/modules/reshuffle_module.py
+++ b/e2cnn/nn/modules/reshuffle_module.py
@@ -38,7 +38,7 @@ class ReshuffleModule(EquivariantModule):
         super(ReshuffleModule, self).__init__()
         
         # check if it is actually a permutation of the fields
-        assert set(permutation) == set(range(0, len(in_type.representations)))
+        assert sorted(permutation) == list(range(0, len(in_type.representations)))
         
         self.space = in_type.gspace
         self.in_type = in_type
-- 
2.43.0


From 31ba671c4295b99c5ea7e8ad998cd411e1bb7d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:51 +0000
Subject: [PATCH 33/49] fix: BranchingModule and MultipleModule accept the
 documented reshuffle=3

---
 e2cnn/nn/modules/branching_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/branching_module.py b/e2cnn/nn/modules/branching_module.py
index 339b13a..b230b21 100644
--- a/e2cnn/nn/modules/branching_module.py
+++ b/e2cnn/nn/modules/branching_module.py
@@ -63,7 +63,7 @@ class BranchingModule(EquivariantModule):
         
         assert isinstance(in_type.gspace, GeneralOnR2)
         
-        assert 0 <= reshuffle < 3
+        assert 0 <= reshuffle <= 3
         
         super(BranchingModule, self).__init__()
         
-- 
2.43.0


From 1feb5c6f76eb3dc52f410546a95b61af2e826f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:51 +0000
Subject: [PATCH 34/49] fix: MultipleModule can announce its output shape

---
 e2cnn/nn/modules/multiple_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/multiple_module.py b/e2cnn/nn/modules/multiple_module.py
index b417951..5cdb067 100644
--- a/e2cnn/nn/modules/multiple_module.py
+++ b/e2cnn/nn/modules/multiple_module.py
@@ -126,7 +126,7 @@ class MultipleModule(EquivariantModule):
         
         branches_shapes = self.branching.evaluate_output_shape(input_shape)
         
-        out_shape = self.merging.evaluate_output_shape(branches_shapes)
+        out_shape = self.merging.evaluate_output_shape(**branches_shapes)
         
         return out_shape
 
-- 
2.43.0


From bd02466ea802343a8a7253195272226827666b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:51 +0000
Subject: [PATCH 35/49] fix: MergeModule does not modify the list of modules
 passed by the user

---
 e2cnn/nn/modules/merge_module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index 5350d6e..6f7854e 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -41,6 +41,9 @@ class MergeModule(EquivariantModule):
         
         labels = []
         
+        # do not modify the list passed by the user
+        modules = list(modules)
+        
         for i in range(len(modules)):
             if isinstance(modules[i][1], str):
                 modules[i] = (modules[i][0], [modules[i][1]])
-- 
2.43.0


From 5a19da6d965646c0474fcd96a1d0b79065ec7577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:51 +0000
Subject: [PATCH 36/49] fix: GeometricTensor.split does not modify the list of
 breaks passed by the user

---
 e2cnn/nn/geometric_tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index 457fb07..49ecc60 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -277,7 +277,8 @@ class GeometricTensor:
         if breaks is None:
             breaks = list(range(1, len(self.type)))
             
-        breaks.append(len(self.type))
+        # do not modify the list passed by the user
+        breaks = list(breaks) + [len(self.type)]
         
         # final list of tensors
         tensors = []
-- 
2.43.0


From e67e87838528cd4a48d8e240a6b264a794bc6589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:11 +0000
Subject: [PATCH 37/49] fix: slicing the fields of a GeometricTensor clips
 slices like Python and rejects integers out of bounds (which could address
 another field or sample)

---
 e2cnn/nn/geometric_tensor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index 49ecc60..2066be6 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -471,6 +471,8 @@ class GeometricTensor:
         for i in range(len(expanded_idxs)):
             if isinstance(expanded_idxs[i], int):
                 idx = expanded_idxs[i]
+                if not -idx_max[i] <= idx < idx_max[i]:
+                    raise IndexError(f'Index {idx} is out of bounds for dimension {i} with size {idx_max[i]}')
                 if idx < 0:
                     # convert a negative index into a positive index
                     idx = idx_max[i] + idx
@@ -487,8 +489,8 @@ class GeometricTensor:
             # contiguous slice over the channels.
             # The slice will start from the first channel of the first field and will stop at the last channel
             # of the last field
-            start = expanded_idxs[1].start if expanded_idxs[1].start is not None else 0
-            stop = expanded_idxs[1].stop if expanded_idxs[1].stop is not None else len(self.type)
+            # convert negative indices and clip the ones out of bounds
+            start, stop, _ = expanded_idxs[1].indices(len(self.type))
             channel_idxs = slice(
                 self.type.fields_start[start],
                 self.type.fields_end[stop-1],
-- 
2.43.0


From 00989c979c6f494e9296e60564fe9538c6bed9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:11 +0000
Subject: [PATCH 38/49] fix: MergeModule accepts a module with multiple inputs
 in the first position

---
 e2cnn/nn/modules/merge_module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index 6f7854e..6432cb4 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -55,7 +55,8 @@ class MergeModule(EquivariantModule):
             labels += modules[i][1]
         
         self.in_type = None
-        self.gspace = modules[0][0].in_type.gspace
+        in_type = modules[0][0].in_type
+        self.gspace = in_type[0].gspace if isinstance(in_type, tuple) else in_type.gspace
         
         out_repr = []
         
-- 
2.43.0


From a84d679b8e0ef896f3a1feba403209b294a50547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:37 +0000
Subject: [PATCH 39/49] fix: the exported anti-aliased max pooling owns its
 filter (it shared the buffer of the equivariant module and was not moved or
 stored with the exported model)

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index b24a984..e775f73 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -260,7 +260,7 @@ class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
 class FixedConv2D(torch.nn.Module):
     def __init__(self, filter:torch.Tensor, stride, _pad):
         super(FixedConv2D, self).__init__()
-        self._filter = filter
+        self.register_buffer("_filter", filter.clone())
         self._stride = stride
         self._pad = _pad
 
-- 
2.43.0


From 67bb210394b235c991a21a749795d688c630875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:39 +0000
Subject: [PATCH 40/49] fix: integer indices beyond the end of a batch or
 spatial axis of a GeometricTensor still give an empty tensor

---
 e2cnn/nn/geometric_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index 2066be6..0e5aaa1 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -471,7 +471,7 @@ class GeometricTensor:
         for i in range(len(expanded_idxs)):
             if isinstance(expanded_idxs[i], int):
                 idx = expanded_idxs[i]
-                if not -idx_max[i] <= idx < idx_max[i]:
+                if idx < -idx_max[i] or (i == 1 and idx >= idx_max[i]):
                     raise IndexError(f'Index {idx} is out of bounds for dimension {i} with size {idx_max[i]}')
                 if idx < 0:
                     # convert a negative index into a positive index
-- 
2.43.0


From b48a49e32079440aeb2358c8c2bd8872de4c740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:56 +0000
Subject: [PATCH 41/49] fix: FieldType copies the list of representations
 (changing the list later left a type whose size, layout and fields disagreed)

---
 e2cnn/nn/field_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/field_type.py b/e2cnn/nn/field_type.py
index 8f8dd78..97fcf91 100644
--- a/e2cnn/nn/field_type.py
+++ b/e2cnn/nn/field_type.py
@@ -74,7 +74,7 @@ class FieldType:
         self.gspace = gspace
         
         # list: List of representations of each feature field composing the feature space of this type
-        self.representations = representations
+        self.representations = list(representations)
         
         # int: size of the field associated to this type.
         # as the representation associated to the field is the direct sum of the representations
-- 
2.43.0


From 34a8803d5a3bcdd3f6c085bc34e8fdb0fa59e8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:36 +0000
Subject: [PATCH 42/49] fix: spaces with different reflection axes are
 different (tensors and layers of one were accepted by the other)

---
 e2cnn/gspaces/r2/flip2d_on_r2.py    | 5 +++--
 e2cnn/gspaces/r2/fliprot2d_on_r2.py | 5 +++--
 e2cnn/nn/field_type.py              | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/e2cnn/gspaces/r2/flip2d_on_r2.py b/e2cnn/gspaces/r2/flip2d_on_r2.py
index eddcbfc..f4a33f2 100644
--- a/e2cnn/gspaces/r2/flip2d_on_r2.py
+++ b/e2cnn/gspaces/r2/flip2d_on_r2.py
@@ -196,9 +196,10 @@ class Flip2dOnR2(GeneralOnR2):
 
     def __eq__(self, other):
         if isinstance(other, Flip2dOnR2):
-            return self.fibergroup == other.fibergroup
+            # an axis is a line: rotating it by pi does not change it
+            return self.fibergroup == other.fibergroup and abs(np.sin(self.axis - other.axis)) < 1e-6
         else:
             return False
 
     def __hash__(self):
-        return hash(self.name)
+        return hash(("Flip2dOnR2", self.fibergroup.name))
diff --git a/e2cnn/gspaces/r2/fliprot2d_on_r2.py b/e2cnn/gspaces/r2/fliprot2d_on_r2.py
index 4702c21..b07758f 100644
--- a/e2cnn/gspaces/r2/fliprot2d_on_r2.py
+++ b/e2cnn/gspaces/r2/fliprot2d_on_r2.py
@@ -295,9 +295,10 @@ class FlipRot2dOnR2(GeneralOnR2):
 
     def __eq__(self, other):
         if isinstance(other, FlipRot2dOnR2):
-            return self.fibergroup == other.fibergroup
+            # an axis is a line: rotating it by pi does not change it
+            return self.fibergroup == other.fibergroup and abs(np.sin(self.axis - other.axis)) < 1e-6
         else:
             return False
     
     def __hash__(self):
-        return hash(self.name)
+        return hash(("FlipRot2dOnR2", self.fibergroup.name))
diff --git a/e2cnn/nn/field_type.py b/e2cnn/nn/field_type.py
index 97fcf91..323ae8d 100644
--- a/e2cnn/nn/field_type.py
+++ b/e2cnn/nn/field_type.py
@@ -93,7 +93,7 @@ class FieldType:
         self._field_start = None
         self._field_end = None
 
-        self._hash = hash(self.gspace.name + ': {' + ', '.join([r.name for r in self.representations]) + '}')
+        self._hash = hash((self.gspace, ', '.join([r.name for r in self.representations])))
 
     @property
     def fibergroup(self) -> Group:
-- 
2.43.0


From 21d00755bb6fdff407a8ce93cd1600f48701b73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:36 +0000
Subject: [PATCH 43/49] fix: the continuous subgroups of O(2) are the unique
 instances of SO(2) and O(2) (whether a restricted type equalled a directly
 built one depended on the frequencies requested elsewhere)

---
 e2cnn/group/groups/o2group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index e965800..689f968 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -186,12 +186,12 @@ class O2(Group):
         
         if id not in self._subgroups:
             if id[0] is not None and id[1] == -1:
-                sg = O2(self._maximum_frequency)
+                sg = O2._generator(self._maximum_frequency)
                 parent_mapping = lambda e, axis=axis: (e[0], e[1] + e[0]*axis)
                 child_mapping = lambda e, axis=axis: (e[0], e[1] - e[0]*axis)
 
             elif id[0] is None and id[1] == -1:
-                sg = SO2(self._maximum_frequency)
+                sg = SO2._generator(self._maximum_frequency)
                 parent_mapping = lambda e, axis=axis: (0, e)
                 child_mapping = lambda e: None if e[0] != 0 else e[1]
                 
-- 
2.43.0


From b90159fe0447d062177c2c418042c2340425d461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:15 +0000
Subject: [PATCH 44/49] fix: converting or moving a layer does not convert the
 cached filters of the other layers

---
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index b92b9e6..cad3103 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -4,6 +4,8 @@ from .basisexpansion import BasisExpansion
 
 from typing import Callable, Dict, List, Iterable, Union
 
+import copy
+
 import torch
 import numpy as np
 
@@ -174,7 +176,12 @@ def block_basisexpansion(basis: Basis,
         if key not in _stored_filters:
             _stored_filters[key] = SingleBlockBasisExpansion(basis, points, basis_filter)
         
-        return _stored_filters[key]
+        # every layer owns its module (which shares the memory of the stored tensors), such that moving or converting
+        # a layer does not affect the other ones
+        block_expansion = copy.copy(_stored_filters[key])
+        block_expansion._buffers = block_expansion._buffers.copy()
+        
+        return block_expansion
     
     else:
         return SingleBlockBasisExpansion(basis, points, basis_filter)
-- 
2.43.0


From ae094c4711b27a06810a112399ecb97869e379d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:34 +0000
Subject: [PATCH 45/49] fix: loading a state dict does not overwrite the cached
 filters of the other layers

---
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index cad3103..5ec5d5f 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -111,6 +111,11 @@ class SingleBlockBasisExpansion(BasisExpansion):
         # expand the current subset of basis vectors and set the result in the appropriate place in the filter
         return torch.einsum('boi...,kb->koi...', self.sampled_basis, weights) #.transpose(1, 2).contiguous()
 
+    def _load_from_state_dict(self, *args, **kwargs):
+        # the memory can be shared with other layers (see `block_basisexpansion`) but the tensors are loaded in-place
+        self.sampled_basis = self.sampled_basis.clone()
+        super(SingleBlockBasisExpansion, self)._load_from_state_dict(*args, **kwargs)
+
     def get_basis_names(self) -> List[str]:
         return self._idx_to_ids
 
-- 
2.43.0


From 1a8e1eb28f7d2c38ec4ce0a7ea47af1481f1380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:14 +0000
Subject: [PATCH 46/49] fix: equivariance self-check fed a module's own
 in-place output back to it (ELU(inplace=True) and sequences starting with it
 were rejected)

---
 e2cnn/nn/modules/equivariant_module.py | 3 ++-
 e2cnn/nn/modules/nonlinearities/elu.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/equivariant_module.py b/e2cnn/nn/modules/equivariant_module.py
index 6a433c0..cf5fac5 100644
--- a/e2cnn/nn/modules/equivariant_module.py
+++ b/e2cnn/nn/modules/equivariant_module.py
@@ -102,7 +102,8 @@ class EquivariantModule(Module, ABC):
         for el in self.out_type.testing_elements:
             print(el)
             
-            out1 = self(x).transform(el).tensor.detach().numpy()
+            # the module may modify its input in-place
+            out1 = self(GeometricTensor(x.tensor.clone(), x.type)).transform(el).tensor.detach().numpy()
             out2 = self(x.transform(el)).tensor.detach().numpy()
         
             errs = out1 - out2
diff --git a/e2cnn/nn/modules/nonlinearities/elu.py b/e2cnn/nn/modules/nonlinearities/elu.py
index 04bb24b..f8d3b3e 100644
--- a/e2cnn/nn/modules/nonlinearities/elu.py
+++ b/e2cnn/nn/modules/nonlinearities/elu.py
@@ -85,7 +85,8 @@ class ELU(EquivariantModule):
         errors = []
         
         for el in self.space.testing_elements:
-            out1 = self(x).transform_fibers(el)
+            # the module may modify its input in-place
+            out1 = self(GeometricTensor(x.tensor.clone(), x.type)).transform_fibers(el)
             out2 = self(x.transform_fibers(el))
             
             errs = (out1.tensor - out2.tensor).detach().numpy()
-- 
2.43.0


From b3ad5d1f60638f3b439efcf60a16e7c4f998a607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:39 +0000
Subject: [PATCH 47/49] fix: GatedNonLinearity2 failed on gates and features in
 different memory layouts (e.g. features shared by the batch through expand)

---
 e2cnn/nn/modules/nonlinearities/gated2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/nonlinearities/gated2.py b/e2cnn/nn/modules/nonlinearities/gated2.py
index 841b6d8..3e7cf70 100644
--- a/e2cnn/nn/modules/nonlinearities/gated2.py
+++ b/e2cnn/nn/modules/nonlinearities/gated2.py
@@ -178,7 +178,7 @@ class GatedNonLinearity2(EquivariantModule):
                             input[:, indices[0]:indices[1], ...]
                             .view(b, -1, size, h, w)
                             * g
-                    ).view(b, -1, h, w)
+                    ).reshape(b, -1, h, w)
             
             else:
                 # otherwise we have to use indexing
@@ -187,7 +187,7 @@ class GatedNonLinearity2(EquivariantModule):
                             input[:, indices, ...]
                             .view(b, -1, size, h, w)
                             * g
-                    ).view(b, -1, h, w)
+                    ).reshape(b, -1, h, w)
             
             # shift the position on the gates fiber
             next_gate += self._nfields[size]
-- 
2.43.0


From ab744296949a2dbd67a399972be8563595ad5218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:07 +0000
Subject: [PATCH 48/49] fix: compare the dimension of bases before broadcasting
 their frequencies and radii

Comparing two kernel or operator bases with a different number of elements raised a
ValueError, or, when one of them had a single element, reported them as equal.
---
 e2cnn/diffops/irreps_basis.py | 10 ++++++++++
 e2cnn/kernels/basis.py        |  4 +++-
 e2cnn/kernels/irreps_basis.py | 10 ++++++++++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/e2cnn/diffops/irreps_basis.py b/e2cnn/diffops/irreps_basis.py
index 49c9d30..abc8f0c 100644
--- a/e2cnn/diffops/irreps_basis.py
+++ b/e2cnn/diffops/irreps_basis.py
@@ -127,6 +127,8 @@ class R2FlipsSolution(DiffopBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
+        elif self.dim != other.dim:
+            return False
         else:
             return np.allclose(self.mu, other.mu) and self.invert == other.invert
 
@@ -351,6 +353,8 @@ class R2DiscreteRotationsSolution(DiffopBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
             return False
+        elif self.dim != other.dim:
+            return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
         else:
@@ -583,6 +587,8 @@ class R2FlipsDiscreteRotationsSolution(DiffopBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
+        elif self.dim != other.dim:
+            return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
         else:
@@ -730,6 +736,8 @@ class R2ContinuousRotationsSolution(DiffopBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
             return False
+        elif self.dim != other.dim:
+            return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
         else:
@@ -890,6 +898,8 @@ class R2FlipsContinuousRotationsSolution(DiffopBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
+        elif self.dim != other.dim:
+            return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
         else:
diff --git a/e2cnn/kernels/basis.py b/e2cnn/kernels/basis.py
index edd6cbc..d94f08a 100644
--- a/e2cnn/kernels/basis.py
+++ b/e2cnn/kernels/basis.py
@@ -220,7 +220,9 @@ class GaussianRadialProfile(KernelBasis):
 
     def __eq__(self, other):
         if isinstance(other, GaussianRadialProfile):
-            return np.allclose(self.radii, other.radii) and np.allclose(self.sigma, other.sigma)
+            return (self.dim == other.dim
+                    and np.allclose(self.radii, other.radii)
+                    and np.allclose(self.sigma, other.sigma))
         else:
             return False
     
diff --git a/e2cnn/kernels/irreps_basis.py b/e2cnn/kernels/irreps_basis.py
index 493ee43..0c65a77 100644
--- a/e2cnn/kernels/irreps_basis.py
+++ b/e2cnn/kernels/irreps_basis.py
@@ -176,6 +176,8 @@ class R2FlipsSolution(IrrepBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
+        elif self.dim != other.dim:
+            return False
         else:
             return np.allclose(self.mu, other.mu) and np.allclose(self.gamma, other.gamma)
 
@@ -436,6 +438,8 @@ class R2DiscreteRotationsSolution(IrrepBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
             return False
+        elif self.dim != other.dim:
+            return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
         else:
@@ -625,6 +629,8 @@ class R2ContinuousRotationsSolution(IrrepBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
             return False
+        elif self.dim != other.dim:
+            return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
         else:
@@ -883,6 +889,8 @@ class R2FlipsDiscreteRotationsSolution(IrrepBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
+        elif self.dim != other.dim:
+            return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
         else:
@@ -1065,6 +1073,8 @@ class R2FlipsContinuousRotationsSolution(IrrepBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
+        elif self.dim != other.dim:
+            return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
         else:
-- 
2.43.0


From ff8bbaa94c075df73c966085f74ad8a5c273483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:07 +0000
Subject: [PATCH 49/49] fix: FieldDropout(p=0) dropped a field when the uniform
 draw was exactly zero

---
 e2cnn/nn/modules/dropout/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/dropout/field.py b/e2cnn/nn/modules/dropout/field.py
index 6dfa3bd..9de0e27 100644
--- a/e2cnn/nn/modules/dropout/field.py
+++ b/e2cnn/nn/modules/dropout/field.py
@@ -29,7 +29,7 @@ def dropout_field(input: torch.Tensor, p: float, training: bool, inplace: bool):
             device = input.device
             mask = torch.cuda.FloatTensor(*shape, device=device)
         
-        mask = mask.uniform_() > p
+        mask = mask.uniform_() >= p
         mask = mask.to(torch.float)
         
         # if p = 1 everything is dropped
-- 
2.43.0

