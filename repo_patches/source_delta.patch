From 758b9b2ceaa5ce01b25d6420a6f69963b990fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:58 +0000
Subject: [PATCH 01/38] fix: single-site bosonic operators used dimension 2 per
 trailing site instead of the local dimension

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index c8a5395..c2da356 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -339,7 +339,7 @@ class ed_base:
                 endmat = sp.kron(endmat, self.parity_op, format="coo")
             # TODO: can I generate this parity matrix without a loop? Would it be faster?
         elif format == "boson":
-            endmat = sp.eye(2 ** (n_logical_sites - site_index_logical - 1))
+            endmat = sp.eye(self.nbasis ** (n_logical_sites - site_index_logical - 1))
         else:
             raise Exception()
 
-- 
2.43.0


From 836a42134beff05d06c14653feb3c2625262e809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:58 +0000
Subject: [PATCH 02/38] fix: S+ and S- were exchanged relative to the basis
 ordering of Sz (Sy had the wrong sign)

---
 exact_diag/ed_spins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 5777798..68f6c39 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -82,7 +82,7 @@ class spinSystem(ed_base):
         :return:
         """
         ms = np.arange(spin - 1, -spin - 1, -1)
-        return sp.diags(np.sqrt((spin - ms) * (spin + ms + 1)), -1)
+        return sp.diags(np.sqrt((spin - ms) * (spin + ms + 1)), 1)
 
     @staticmethod
     def get_sminus(spin):
@@ -93,7 +93,7 @@ class spinSystem(ed_base):
         :return:
         """
         ms = np.arange(spin, -spin, -1)
-        return sp.diags(np.sqrt((spin + ms) * (spin - ms + 1)), 1)
+        return sp.diags(np.sqrt((spin + ms) * (spin - ms + 1)), -1)
 
     def get_sx(self,
                spin):
-- 
2.43.0


From 0c60c0ec4690da2cb66613af44baa44e53ed0ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:58 +0000
Subject: [PATCH 03/38] fix: spinSystem.get_sum_op raised AttributeError

---
 exact_diag/ed_spins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 68f6c39..f065b57 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -448,7 +448,7 @@ class spinSystem(ed_base):
         :return: OpMat, sparse matrix
         """
         species_index = 0
-        return ed_base.ed_base.get_sum_op(self, op, species_index, format="boson", print_results=False)
+        return super(spinSystem, self).get_sum_op(op, species_index, format="boson", print_results=False)
 
     def get_swap_up_down_op(self):
         """
-- 
2.43.0


From 3f5b58227858b8bbfd70e8cb501103888d76c7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:58 +0000
Subject: [PATCH 04/38] fix: spinSystem.get_state_parity passed arguments
 get_state_vects does not take

---
 exact_diag/ed_spins.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index f065b57..0d91bec 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -217,8 +217,7 @@ class spinSystem(ed_base):
         """
         if print_results:
             tstart = perf_counter()
-        StateParity = np.mod(np.array(self.get_state_vects(self.geometry.nsites,
-                                                           2 ** self.geometry.nsites).sum(1)), 2)
+        StateParity = np.mod(np.array(self.get_state_vects().sum(1)), 2)
         if print_results:
             tend = perf_counter()
             print("get_state_parity took %0.2fs" % (tend - tstart))
-- 
2.43.0


From c4219b094ad31e075e0bf86d7ffbeab57128182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:58 +0000
Subject: [PATCH 05/38] fix: second antiferromagnetic special state was off by
 one basis state

---
 exact_diag/ed_spins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 0d91bec..9504e66 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -376,7 +376,7 @@ class spinSystem(ed_base):
             else:
                 # if nsites is even
                 AFMState1Ind = (2 + NStates) / 3 - 1
-            AFMState2Ind = NStates - AFMState1Ind
+            AFMState2Ind = NStates - 1 - AFMState1Ind
         else:
             print('AFM State finder not implemented for even number of sites in X-direction when using '
                   'conventional number, or not implemented for only a single site. Will return FM states instead')
-- 
2.43.0


From 28e803c629dfcc56d62f3b892d0b29ee22084cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:58 +0000
Subject: [PATCH 06/38] fix: interaction given as one coupling per chain bond
 raised ValueError and was not symmetric

---
 exact_diag/ed_spins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 9504e66..2d927a6 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -155,8 +155,9 @@ class spinSystem(ed_base):
             if j.shape == (self.geometry.nsites, self.geometry.nsites):
                 j_mat = j
             elif j.size == self.geometry.nsites:
-                j_mat = np.diag(j[:-1], 1) + np.diag(j[-1], -1)
+                j_mat = np.diag(j[:-1], 1) + np.diag(j[:-1], -1)
                 j_mat[0, self.geometry.nsites - 1] = j[-1]
+                j_mat[self.geometry.nsites - 1, 0] = j[-1]
             else:
                 raise Exception('j should be nsites x nsites matrix or a list of size nsites')
         else:
-- 
2.43.0


From b858575c8bf9ef550b907671e1a2f2b5395a6f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:58 +0000
Subject: [PATCH 07/38] fix: get_interaction_mat_c6 used geometry attributes
 that do not exist

---
 exact_diag/ed_spins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 2d927a6..e6cf297 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -135,7 +135,7 @@ class spinSystem(ed_base):
         :param cutoff_dist:
         :return:
         """
-        distmat = np.sqrt(self.geometry.site_distances_reduced_x ** 2 + self.geometry.site_distances_reduced_y ** 2)
+        distmat = np.sqrt(self.geometry.xdist_mat ** 2 + self.geometry.ydist_mat ** 2)
         jmat = np.zeros(distmat.shape)
         jmat[distmat != 0] = C6*np.power(np.reciprocal(distmat[distmat != 0]), 6)
         return jmat
-- 
2.43.0


From 313082f1b6ed01e36e8c48969d2101f5d3ace3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:58 +0000
Subject: [PATCH 08/38] fix: get_norms failed for a single state vector

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index c2da356..b50bd9f 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -562,7 +562,7 @@ class ed_base:
             tstart = perf_counter()
 
         if states.ndim == 1:
-            states = np.expand_dim(states, axis=1)
+            states = np.expand_dims(states, axis=1)
 
         if sp.issparse(states):
             states = states.tocsr()
-- 
2.43.0


From 67eddb65e5e8b46c4bc602c50db7a977be65a7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:21 +0000
Subject: [PATCH 09/38] fix: partition function from a sparse hamiltonian used
 the dense matrix exponential and raised TypeError

---
 exact_diag/ed_base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index b50bd9f..bf2e273 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -11,8 +11,7 @@ import ctypes
 import pickle
 import numpy as np
 from scipy.io import savemat, loadmat
-from scipy.sparse.linalg import eigsh
-from scipy.linalg import expm
+from scipy.sparse.linalg import eigsh, expm
 import scipy.sparse as sp
 from exact_diag.ed_geometry import Geometry
 
@@ -946,7 +945,7 @@ class ed_base:
         if beta == 0:
             return hamiltonian.shape[0]
         else:
-            return np.trace(expm(- beta * hamiltonian).toarray().real)
+            return np.trace(expm(- beta * sp.csc_matrix(hamiltonian)).toarray().real)
 
     def get_partition_fn_sectors(self,
                                  energies_sectors: list,
-- 
2.43.0


From 35cff79c881d8c3525b1f9ee18dfebce18cd85ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:21 +0000
Subject: [PATCH 10/38] fix: spinless to spinful index conversion returned a
 float species index

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index bf2e273..2c571dd 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -312,7 +312,7 @@ class ed_base:
         :return: (spinfull site index, spin index)
         """
         site_index = np.mod(spinless_site_index, n_physical_sites)
-        spin_index = (spinless_site_index - site_index) / n_physical_sites
+        spin_index = (spinless_site_index - site_index) // n_physical_sites
         return site_index, spin_index
 
     def get_single_site_op(self,
-- 
2.43.0


From 19c01e938e7bcebbae7712d2b03a81ed09ee9e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:21 +0000
Subject: [PATCH 11/38] fix: finite temperature retarded response applied the
 Boltzmann weight of the wrong state

---
 exact_diag/ed_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 2c571dd..38eae51 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -1108,7 +1108,8 @@ class ed_base:
             beta = 1 / temperature
             z = np.sum(np.exp(- beta * eig_vals))
             mat_elem = np.multiply(a_matrix_elems, b_matrix_elems.transpose())
-            thermal_mat_elem = mat_elem.dot(np.diag(np.exp(- beta * eig_vals)))
+            # statistical weight belongs to the state n, which is the row index of M_nm
+            thermal_mat_elem = np.diag(np.exp(- beta * eig_vals)).dot(mat_elem)
             omega_fn = lambda wo, eta, es, amp: np.multiply(1 + factor * np.exp(beta * es), lor(wo + es, eta, amp))
 
         else:
-- 
2.43.0


From 51e0822d21c92cc87ac24f0fca49af2531103992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:21 +0000
Subject: [PATCH 12/38] fix: separation along the second lattice vector was not
 antisymmetric

---
 exact_diag/ed_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index b66a3a1..eaf4f02 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -802,7 +802,7 @@ class Lattice:
                 xdist_min[jj, ii] = - xdist_min[ii, jj]
                 ydist_min[jj, ii] = - ydist_min[ii, jj]
                 latt_vect1_dist[jj, ii] = - latt_vect1_dist[ii, jj]
-                latt_vect2_dist[jj, ii] = - -latt_vect2_dist[ii, jj]
+                latt_vect2_dist[jj, ii] = - latt_vect2_dist[ii, jj]
 
         return xdist_min, ydist_min, latt_vect1_dist, latt_vect2_dist
 
-- 
2.43.0


From 9ccb151c82c8ff768d836f017b670a821b4af664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:21 +0000
Subject: [PATCH 13/38] fix: D7 conjugacy classes were listed in a different
 order than the columns of the character table

---
 exact_diag/ed_symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 8f23332..1177740 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -645,8 +645,8 @@ def getD7Projectors(rot_op,
                     [refl_op, rot_op * refl_op, rot_op**2 * refl_op, rot_op**3 * refl_op,
                      rot_op**4 * refl_op, rot_op**5 * refl_op, rot_op**6 * refl_op],
                     [rot_op, rot_op ** 6],
-                    [rot_op**3, rot_op**4],
-                    [rot_op**2, rot_op**5]]
+                    [rot_op**2, rot_op**5],
+                    [rot_op**3, rot_op**4]]
 
     projs = get_symmetry_projectors(char_table, conj_classes, print_results=print_results)
 
-- 
2.43.0


From 790ede0a3aadbe3935aedb53003f5047e5abbe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:21 +0000
Subject: [PATCH 14/38] fix: 1d density response evaluated the dispersion at k
 instead of k + q

---
 exact_diag/fermi_gas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index fca2774..e5fd740 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -588,7 +588,7 @@ def fg_density_response(beta,
         kxkx_shift = kxkx + k[0]
 
         # get energies
-        dispersion = lambda kx: -2 * np.cos(kxkx)
+        dispersion = lambda kx: -2 * np.cos(kx)
         es = dispersion(kxkx)
         es_q = dispersion(kxkx_shift)
 
-- 
2.43.0


From d7ad245796ac7c27a1e2b0c7508a7eb624f1e87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:21 +0000
Subject: [PATCH 15/38] fix: potentials given per species were assigned to
 sites instead of species

---
 exact_diag/ed_fermions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 3af1943..fd21628 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -124,7 +124,7 @@ class fermions(ed_base):
         elif potentials.size == self.nspecies:
             self.potentials = np.zeros((self.geometry.nsites, self.nspecies))
             for ii in range(0, self.nspecies):
-                self.potentials[ii, :] = potentials[ii] * np.ones(self.geometry.nsites)
+                self.potentials[:, ii] = potentials[ii] * np.ones(self.geometry.nsites)
         elif potentials.shape == (self.geometry.nsites, self.nspecies):
             self.potentials = potentials
         elif potentials.shape == (self.geometry.nsites,) and self.nspecies == 1:
-- 
2.43.0


From 6c812f9135329dfc991305218dd6f343d6724024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:21 +0000
Subject: [PATCH 16/38] fix: hopping matrix dropped the imaginary part of the
 boundary phases

---
 exact_diag/ed_fermions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index fd21628..8d59f13 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -238,7 +238,8 @@ class fermions(ed_base):
         if t.size == 1:
             t = t * np.ones(self.nspecies)
 
-        hopping_mat = np.zeros((self.geometry.nsites, self.geometry.nsites, self.nspecies))
+        hopping_mat = np.zeros((self.geometry.nsites, self.geometry.nsites, self.nspecies),
+                               dtype=np.result_type(t, self.geometry.phase_mat, float))
         for ii in range(0, self.nspecies):
             hopping_mat[:, :, ii] = t[ii] * np.multiply(self.geometry.adjacency_mat, self.geometry.phase_mat)
 
-- 
2.43.0


From dddccee76e8941b528cf85716d58f8dab861a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:21 +0000
Subject: [PATCH 17/38] fix: kinetic operator was not hermitian for complex
 hopping amplitudes

---
 exact_diag/ed_fermions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 8d59f13..4650e49 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -335,13 +335,15 @@ class fermions(ed_base):
                         for kk in range(0, self.nspecies):
                             # avoid calculating operators unless will be nonzero
                             if self.ts[ii, jj, kk] != 0:
-                                ke_op = ke_op + self.ts[ii, jj, kk] * sep_along_vector[ii, jj] * (
-                                        - projector * self.get_two_site_op(ii, kk, jj, kk,
+                                ke_op = ke_op + sep_along_vector[ii, jj] * (
+                                        - self.ts[ii, jj, kk] * projector *
+                                          self.get_two_site_op(ii, kk, jj, kk,
                                                                            self.cdag_op,
                                                                            self.c_op,
                                                                            "fermion") *
                                           projector.conj().transpose()
-                                        - projector * self.get_two_site_op(jj, kk, ii, kk,
+                                        - np.conj(self.ts[ii, jj, kk]) * projector *
+                                          self.get_two_site_op(jj, kk, ii, kk,
                                                                            self.cdag_op,
                                                                            self.c_op,
                                                                            "fermion") *
-- 
2.43.0


From 148fd042e2538664294e717245516f4e2efb3ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:21 +0000
Subject: [PATCH 18/38] fix: hubbard hamiltonian rescaled hoppings by |dx| +
 |dy| on lattices with oblique bonds

---
 exact_diag/ed_fermions.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 4650e49..5eeac10 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -289,8 +289,7 @@ class fermions(ed_base):
 
         haml = haml + self.get_u_interspecies_op(self.us_interspecies, projector=projector)
         haml = haml + self.get_u_samespecies_op(self.us_same_species, projector=projector)
-        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=np.array([1, 0]))
-        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=np.array([0, 1]))
+        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=None)
         haml = haml + self.get_chemical_pot_op(self.mus, projector=projector)
         haml = haml + self.get_potential_op(self.potentials, projector=projector)
 
@@ -307,7 +306,7 @@ class fermions(ed_base):
         Compute the kinetic energy operator for a specific hopping connection matrix
 
         :param projector:
-        :param direction_vect:
+        :param direction_vect: weight each hopping by its extent along this direction. If None, do not weight.
         :return:
         """
         # TODO: add option for kinetic energy along some arbitary direction
@@ -321,8 +320,11 @@ class fermions(ed_base):
 
         ke_op = sp.csr_matrix((nstates, nstates))
 
-        sep_along_vector = np.sqrt(np.square(direction_vect[0] * self.geometry.xdist_mat) +
-                                   np.square(direction_vect[1] * self.geometry.ydist_mat))
+        if direction_vect is None:
+            sep_along_vector = np.ones((n_physical_sites, n_physical_sites))
+        else:
+            sep_along_vector = np.sqrt(np.square(direction_vect[0] * self.geometry.xdist_mat) +
+                                       np.square(direction_vect[1] * self.geometry.ydist_mat))
         # hopping terms
         if n_physical_sites > 1:
 
-- 
2.43.0


From cb8b9823e77bed23b2dca709dfdcedb9c3eb64b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:21 +0000
Subject: [PATCH 19/38] fix: current operator used hopping attributes that no
 longer exist

---
 exact_diag/ed_fermions.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 5eeac10..a0bd0ae 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -495,9 +495,6 @@ class fermions(ed_base):
         # such a chain (ring) doesn't have a consistent notion of right vs. left (clockwise vs. counterclockwise)
 
         geom_obj = self.geometry
-        tx = self.tx
-        ty = self.ty
-
         direction_vector = np.reshape(np.asarray(direction_vector), [2])
 
         current_op = 0
@@ -511,12 +508,12 @@ class fermions(ed_base):
                 for kk in range(0, self.nspecies):
 
                     if geom_obj.adjacency_mat[ii, jj] and is_x_neighbor[ii, jj]:
-                        link_current = tx * distance_component_x[ii, jj] * \
+                        link_current = self.ts[ii, jj, kk] * distance_component_x[ii, jj] * \
                                        self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
                         current_op = current_op + link_current
 
                     if geom_obj.adjacency_mat[ii, jj] and is_y_neighbor[ii, jj]:
-                        link_current = ty * distance_component_y[ii, jj] * \
+                        link_current = self.ts[ii, jj, kk] * distance_component_y[ii, jj] * \
                                        self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
                         current_op = current_op + link_current
         current_op = 1j * current_op
-- 
2.43.0


From ea0f34cbe4fd0f8d891512129229a2d630b0513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:52 +0000
Subject: [PATCH 20/38] fix: current operator ignored bonds that do not run
 along x or y

---
 exact_diag/ed_fermions.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index a0bd0ae..4a5ead0 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -500,20 +500,14 @@ class fermions(ed_base):
         current_op = 0
         distance_component_x = geom_obj.xdist_mat * direction_vector[0]
         distance_component_y = geom_obj.ydist_mat * direction_vector[1]
-        is_x_neighbor = np.round(np.abs(geom_obj.xdist_mat), 14) == 1
-        is_y_neighbor = np.round(np.abs(geom_obj.ydist_mat), 14) == 1
 
         for ii in range(0, geom_obj.nsites):
             for jj in range(0, geom_obj.nsites):
                 for kk in range(0, self.nspecies):
 
-                    if geom_obj.adjacency_mat[ii, jj] and is_x_neighbor[ii, jj]:
-                        link_current = self.ts[ii, jj, kk] * distance_component_x[ii, jj] * \
-                                       self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
-                        current_op = current_op + link_current
-
-                    if geom_obj.adjacency_mat[ii, jj] and is_y_neighbor[ii, jj]:
-                        link_current = self.ts[ii, jj, kk] * distance_component_y[ii, jj] * \
+                    if self.ts[ii, jj, kk] != 0:
+                        link_current = self.ts[ii, jj, kk] * \
+                                       (distance_component_x[ii, jj] + distance_component_y[ii, jj]) * \
                                        self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
                         current_op = current_op + link_current
         current_op = 1j * current_op
-- 
2.43.0


From 1ee6a7dfc9b925d35b76c0d7973dd0d679dac6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:29 +0000
Subject: [PATCH 21/38] fix: rounding errors duplicated sites and lost bonds of
 lattices with irrational coordinates

---
 exact_diag/ed_geometry.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index eaf4f02..8921799 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -13,6 +13,7 @@ except ImportError:
 
 class Geometry:
     _round_decimals = 14
+    _compare_decimals = 10
 
     def __init__(self,
                  xlocs=None,
@@ -91,7 +92,7 @@ class Geometry:
 
             self.adjacency_mat = (np.round(np.sqrt(np.square(self.xdist_mat) +
                                                    np.square(self.ydist_mat)),
-                                           self._round_decimals) == 1.).astype(float)
+                                           self._compare_decimals) == 1.).astype(float)
 
             self.phase_mat = self.lattice.get_phase_mat(self.xdist_mat, self.ydist_mat)
 
@@ -647,6 +648,7 @@ class Geometry:
 
 class Lattice:
     _round_decimals = 14
+    _compare_decimals = 10
 
     def __init__(self,
                  lattice_vect1,
@@ -757,7 +759,10 @@ class Lattice:
         xlocs_red = np.round(xlocs_red, self._round_decimals)
         ylocs_red = np.round(ylocs_red, self._round_decimals)
         # eliminate duplicates
-        locs = np.unique(np.concatenate([xlocs_red[None, :], ylocs_red[None, :]], 0), axis=1)
+        # compare with a tolerance well above the accumulated rounding error
+        locs = np.concatenate([xlocs_red[None, :], ylocs_red[None, :]], 0)
+        _, unique_inds = np.unique(np.round(locs, self._compare_decimals), axis=1, return_index=True)
+        locs = locs[:, unique_inds]
         xlocs = locs[0, :]
         ylocs = locs[1, :]
         nsites = len(xlocs)
@@ -1064,8 +1069,9 @@ def reduce_vectors(vect1,
 
         proj2s = vect2.dot(vects)
 
-    proj1s = np.round(proj1s, 14)
-    proj2s = np.round(proj2s, 14)
+    # tolerance must exceed the accumulated rounding error, otherwise points on a cell edge are not recognized as such
+    proj1s = np.round(proj1s, 10)
+    proj2s = np.round(proj2s, 10)
 
     # TODO: add check of this!
     # expect proj1s * periodicity_vect1 + proj2s * periodicity_vect2 = vects
-- 
2.43.0


From 50ce9145dd3c3dc62e1380058ce652f951ea6180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:29 +0000
Subject: [PATCH 22/38] fix: lattices with periodicity vectors that are not
 lattice vectors were accepted

---
 exact_diag/ed_geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 8921799..b9a2999 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -882,7 +882,7 @@ class Lattice:
                                                 self.periodicity_vect1[0, 0],
                                                 self.periodicity_vect1[1, 0],
                                                 mode='positive')
-        if not np.array_equiv(xred_p1, 0) and np.array_equiv(yred_p1, 0):
+        if not (np.allclose(xred_p1, 0) and np.allclose(yred_p1, 0)):
             return False
 
         xred_p2, yred_p2, _, _ = reduce_vectors(self.lattice_vect1,
@@ -890,7 +890,7 @@ class Lattice:
                                                 self.periodicity_vect2[0, 0],
                                                 self.periodicity_vect2[1, 0],
                                                 mode='positive')
-        if not np.array_equiv(xred_p2, 0) and np.array_equiv(yred_p2, 0):
+        if not (np.allclose(xred_p2, 0) and np.allclose(yred_p2, 0)):
             return False
 
         return True
-- 
2.43.0


From 42f99b00c2339d69440f1e3ec3a95dc2fc8a755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:30 +0000
Subject: [PATCH 23/38] fix: static density response was dominated by rounding
 errors of degenerate energies

---
 exact_diag/fermi_gas.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index e5fd740..85e98aa 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -610,10 +610,13 @@ def fg_density_response(beta,
                                                                    dim=dim)
     else:
         # this expression holds except where we have accidental degeneracies.
-        chi_terms = np.divide(fermi(beta, mu, es) - fermi(beta, mu, es_q), omega + es - es_q + 1j * eta)
+        denominator = omega + es - es_q + 1j * eta
+        chi_terms = np.divide(fermi(beta, mu, es) - fermi(beta, mu, es_q), denominator)
         # at those points, use L'Hopital's rule to get finite value
         lim = -fermi_derivatives(beta, mu, es, eta=0.0)[0]
-        chi_terms[np.isnan(chi_terms)] = lim[np.isnan(chi_terms)]
+        # (degenerate energies only agree up to rounding error, in which case the quotient is meaningless)
+        degenerate = np.logical_and(np.abs(es - es_q) < 1e-10, np.abs(denominator) < 1e-10)
+        chi_terms[degenerate] = lim[degenerate]
         # sum them to get chi
         chi = np.sum(chi_terms) / kxkx.size
 
-- 
2.43.0


From 06a2d10bb17868d31da7ebe1e20eddc489197757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:30 +0000
Subject: [PATCH 24/38] fix: adjacency sorting used the number of adjacent
 sites as the least instead of the most significant key

---
 exact_diag/ed_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index b9a2999..5a3a71c 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -420,7 +420,7 @@ class Geometry:
                 adjacency_order_n.append(np.sum(adj_mat_powers[ii], 1))
                 adjacency_test_n[:, ii] = np.sum(adj_mat_powers[ii], 1)
 
-            sorted_indices = np.lexsort(tuple(adjacency_order_n))
+            sorted_indices = np.lexsort(tuple(adjacency_order_n[::-1]))  # last key is the primary key
 
             # however, if two sites are equivalent under a symmetry operation, this process does not distinguish them.
             # It doesn't matter which site we select first, but we need to choose the next site in some way based on
-- 
2.43.0


From 375812a1a1256d787d05c38434f8eb92473877d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:24 +0000
Subject: [PATCH 25/38] fix: full parameter arrays of a single-site system were
 taken for one value per species

---
 exact_diag/ed_fermions.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 4a5ead0..618a0fb 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -71,10 +71,10 @@ class fermions(ed_base):
 
         # tunneling
         ts = np.asarray(ts)
-        if ts.size == self.nspecies or ts.size == 1:
-            self.ts = self.get_hopping_mat(ts)
-        elif ts.shape == (self.geometry.nsites, self.geometry.nsites, self.nspecies):
+        if ts.shape == (self.geometry.nsites, self.geometry.nsites, self.nspecies):
             self.ts = ts
+        elif ts.size == self.nspecies or ts.size == 1:
+            self.ts = self.get_hopping_mat(ts)
         elif ts.shape == (self.geometry.nsites, self.geometry.nsites) and self.nspecies == 1:
             self.ts = ts[:, :, None]
         else:
@@ -95,10 +95,10 @@ class fermions(ed_base):
 
         # interaction between same species
         us_same_species = np.asarray(us_same_species)
-        if us_same_species.size == 1 or us_same_species.size == self.nspecies:
-            self.us_same_species = self.get_samespecies_int_mat(us_same_species)
-        elif us_same_species.shape == (self.geometry.nsites, self.geometry.nsites, self.nspecies):
+        if us_same_species.shape == (self.geometry.nsites, self.geometry.nsites, self.nspecies):
             self.us_same_species = us_same_species
+        elif us_same_species.size == 1 or us_same_species.size == self.nspecies:
+            self.us_same_species = self.get_samespecies_int_mat(us_same_species)
         elif us_same_species.shape == (self.geometry.nsites, self.geometry.nsites) and self.nspecies == 1:
             self.us_same_species = us_same_species[:, :, None]
         else:
@@ -119,14 +119,14 @@ class fermions(ed_base):
 
         # potential
         potentials = np.asarray(potentials)
-        if potentials.size == 1:
+        if potentials.shape == (self.geometry.nsites, self.nspecies):
+            self.potentials = potentials
+        elif potentials.size == 1:
             self.potentials = potentials * np.ones((self.geometry.nsites, self.nspecies))
         elif potentials.size == self.nspecies:
             self.potentials = np.zeros((self.geometry.nsites, self.nspecies))
             for ii in range(0, self.nspecies):
                 self.potentials[:, ii] = potentials[ii] * np.ones(self.geometry.nsites)
-        elif potentials.shape == (self.geometry.nsites, self.nspecies):
-            self.potentials = potentials
         elif potentials.shape == (self.geometry.nsites,) and self.nspecies == 1:
             self.potentials = potentials[:, None]
         else:
-- 
2.43.0


From 5768f6c165c4ccdd7f70572f20df23b829e5a708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:08 +0000
Subject: [PATCH 26/38] fix: comparing a lattice geometry with a non-periodic
 geometry raised AttributeError

---
 exact_diag/ed_geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 5a3a71c..cb07fa1 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -939,6 +939,8 @@ class Lattice:
     # #################################
 
     def __eq__(self, other):
+        if not isinstance(other, Lattice):
+            return False
         if np.array_equal(self.lattice_vect1, other.lattice_vect1) and \
            np.array_equal(self.lattice_vect2, other.lattice_vect2) and \
            np.array_equal(self.periodicity_vect1, other.periodicity_vect1) and \
-- 
2.43.0


From bc0ca8e69bd45c2f796a9a73ed88531bcc44ed43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:14 +0000
Subject: [PATCH 27/38] fix: projectors onto multi-dimensional representations
 dropped the imaginary part of complex operators

---
 exact_diag/ed_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 1177740..d587c71 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -289,7 +289,7 @@ def reduce_symm_projector(p_full,
 
         # construct reduced projector matrix
         # maximum rank, but real rank can be less than this
-        p_red = sp.lil_matrix((p_full.shape))
+        p_red = sp.lil_matrix(p_full.shape, dtype=np.result_type(p_full.dtype, float))
         p_row_counter = 0
         inv_counter = 0
 
-- 
2.43.0


From 30c04953c809dde809e11b5512fdab967e7a68df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:04 +0000
Subject: [PATCH 28/38] fix: conjugacy classes of the 3x3 torus group assumed
 clockwise rotations, so some projectors were not onto irreducible
 representations

---
 exact_diag/ed_symmetry.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index d587c71..2efce3e 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -688,7 +688,7 @@ def getC4V_and_3byb3(rot_op,
 
     C3 = {R^2, Tx^nTy^mR^2} (order=2, #=9)
 
-    C4 = {R*Refl, R^3*Refl, Tx*Ty^2*R*Refl, Tx^2*Ty*R*Refl, Tx*Ty*R^3*Refl, Tx^2*Ty^2*R^3*Refl} (order=2, #=6)
+    C4 = {R*Refl, R^3*Refl, Tx*Ty*R*Refl, Tx^2*Ty^2*R*Refl, Tx*Ty^2*R^3*Refl, Tx^2*Ty*R^3*Refl} (order=2, #=6)
 
     C5 = {R, R^3, Tx^n*Ty^m*R, Tx^n*Ty^m*R^3} (order=4, #=18)
 
@@ -697,8 +697,8 @@ def getC4V_and_3byb3(rot_op,
     C7 = {Tx^n*Ty^m*Refl except (n,m) = (0,0), (1,0) and (2,0)
           Tx^n*Ty^m*R^2*Refl except (n,m) = (0,0), (0,1), and (0, 2)} (order=6, #=12)
 
-    C8 = {Tx^n*Ty^m*R*Refl except (n,m) = (0,0), (1,2) and (2, 1),
-          Tx^n*Ty^m*R^3*Refl except (n,m) = (0,0), (1,1) and (2,2)} (order=6, #=12)
+    C8 = {Tx^n*Ty^m*R*Refl except (n,m) = (0,0), (1,1) and (2, 2),
+          Tx^n*Ty^m*R^3*Refl except (n,m) = (0,0), (1,2) and (2,1)} (order=6, #=12)
 
     C9 = {TxTy, Tx^2Ty, TxTy^2 Tx^2Ty^2} (order=3, #=4)
 
@@ -723,8 +723,8 @@ def getC4V_and_3byb3(rot_op,
     c4 = [refl_op, rot_op**2 * refl_op, tx_op * refl_op, tx_op**2 * refl_op,
           ty_op * rot_op**2 * refl_op, ty_op**2 * rot_op**2 * refl_op]
     c2 = [rot_op * refl_op, rot_op ** 3 * refl_op,
-          tx_op * ty_op ** 2 * rot_op * refl_op, tx_op ** 2 * ty_op * rot_op * refl_op,
-          tx_op * ty_op * rot_op ** 3 * refl_op, tx_op ** 2 * ty_op ** 2 * rot_op ** 3 * refl_op]
+          tx_op * ty_op * rot_op * refl_op, tx_op ** 2 * ty_op ** 2 * rot_op * refl_op,
+          tx_op * ty_op ** 2 * rot_op ** 3 * refl_op, tx_op ** 2 * ty_op * rot_op ** 3 * refl_op]
 
     c3 = [rot_op**2, tx_op * rot_op**2, tx_op**2 * rot_op**2,
           ty_op * rot_op**2, ty_op**2 * rot_op**2, tx_op * ty_op * rot_op**2,
@@ -747,10 +747,10 @@ def getC4V_and_3byb3(rot_op,
           tx_op**2 * ty_op * rot_op**2 * refl_op, tx_op**2 * ty_op**2 * rot_op**2 * refl_op]
     c7 = [tx_op * rot_op * refl_op, tx_op**2 * rot_op * refl_op,
           ty_op * rot_op * refl_op, ty_op**2 * rot_op * refl_op,
-          tx_op * ty_op * rot_op * refl_op, tx_op**2 * ty_op**2 * rot_op * refl_op,
+          tx_op * ty_op**2 * rot_op * refl_op, tx_op**2 * ty_op * rot_op * refl_op,
           tx_op * rot_op**3 * refl_op, tx_op**2 * rot_op**3 * refl_op,
           ty_op * rot_op**3 * refl_op, ty_op**2 * rot_op**3 * refl_op,
-          tx_op * ty_op**2 * rot_op**3 * refl_op, tx_op**2 * ty_op * rot_op**3 * refl_op]
+          tx_op * ty_op * rot_op**3 * refl_op, tx_op**2 * ty_op**2 * rot_op**3 * refl_op]
 
     c9 = [tx_op, tx_op**2, ty_op, ty_op**2]
     c6 = [tx_op * ty_op, tx_op ** 2 * ty_op, tx_op * ty_op ** 2, tx_op ** 2 * ty_op ** 2]
-- 
2.43.0


From 76908c91431e205a166b5c3fc2bdf653d8317924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:13 +0000
Subject: [PATCH 29/38] fix: subcluster multiplicities without symmetry merged
 clusters related by symmetry

---
 exact_diag/ed_nlce.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_nlce.py b/exact_diag/ed_nlce.py
index bd03a80..80fa051 100644
--- a/exact_diag/ed_nlce.py
+++ b/exact_diag/ed_nlce.py
@@ -143,7 +143,7 @@ def get_all_clusters_with_subclusters(max_order: int,
             print("cluster index = %d" % index)
         cluster = full_cluster_list[index]
         # get all sub clusters of each cluster
-        subclusters_list, subcluster_mult_mat, order_indices_subclusters = get_reduced_subclusters(cluster)
+        subclusters_list, subcluster_mult_mat, order_indices_subclusters = get_reduced_subclusters(cluster, use_symmetry=use_symmetry)
         cluster_reduction_mat = map_between_cluster_bases(full_cluster_list,
                                                           order_indices_full,
                                                           subclusters_list,
@@ -416,13 +416,15 @@ def reduce_clusters_by_geometry(cluster_orders_list,
 
 
 def get_reduced_subclusters(parent_geometry,
-                            print_progress: bool = False):
+                            print_progress: bool = False,
+                            use_symmetry: bool = True):
     """
     For a given parent geometry, produce all subclusters and the number of times each subcluster is contained in the
     parent
 
     :param parent_geometry:
     :param print_progress:
+    :param use_symmetry: if True, clusters related by symmetry are regarded as identical
     :return cluster_list: a list of distinct sub clusters of the parent_geometry (including the parent geometry itself)
     :return sub_cluster_mat: a square matrix which gives the number of times cluster j can be embedded in cluster i, if
       cluster j is a proper sub-cluster of i (i.e. the diagonal of this matrix is zero).
@@ -434,7 +436,7 @@ def get_reduced_subclusters(parent_geometry,
 
     # get unique geometric clusters of each order and multiplicity
     clusters_geom_distinct, clusters_geom_multiplicity, cluster_reduction_mat = \
-        reduce_clusters_by_geometry(cluster_orders_list, use_symmetry=True)
+        reduce_clusters_by_geometry(cluster_orders_list, use_symmetry=use_symmetry)
     clusters_list = [g for h in clusters_geom_distinct for g in h]
 
     # indices
-- 
2.43.0


From 502d45ffde4f7747e1cef4b4f6c6b878d4476a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:13 +0000
Subject: [PATCH 30/38] fix: linked cluster weights failed for trailing
 dimensions of size one and dropped imaginary parts

---
 exact_diag/ed_nlce.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/exact_diag/ed_nlce.py b/exact_diag/ed_nlce.py
index 80fa051..732da10 100644
--- a/exact_diag/ed_nlce.py
+++ b/exact_diag/ed_nlce.py
@@ -535,7 +535,7 @@ def get_nlce_exp_val(exp_vals_clusters,
     nclusters = exp_vals_clusters.shape[0]
     # want to accept arbitrary exp_vals shapes, subject only to the condition that the
     # first dimension loops over clusters
-    weights = np.zeros(exp_vals_clusters.shape)
+    weights = np.zeros(exp_vals_clusters.shape, dtype=np.result_type(exp_vals_clusters, float))
 
     # compute weights in a nice tensorial way
     # W_p(c) = P(c) - \sum_{s<c} W_p(s)
@@ -547,8 +547,8 @@ def get_nlce_exp_val(exp_vals_clusters,
         # in the general case, we need to sum over index 1 of sub_cluster_multiplicty_mat, and index 0 of weights.
         # np.dot no longer works, as this sums over the last index of the first array, and the second to last index of
         # the second array. To sum over arbitrary axes, use np.tensordot
-        weights[ii, ...] = exp_vals_clusters[ii, ...] - np.squeeze(
-            np.tensordot(sub_cluster_multiplicity_mat[ii, :].toarray(), weights, axes=(1, 0)))
+        weights[ii, ...] = exp_vals_clusters[ii, ...] - \
+            np.tensordot(sub_cluster_multiplicity_mat[ii, :].toarray(), weights, axes=(1, 0))[0]
 
     # exp_val_nlce[jj] = sub_cluster_multiplicity_mat[-1, :] * weights[:, jj] / nsites
     # exp_val_nlce = np.squeeze(np.tensordot(sub_cluster_multiplicity_mat[-1, :].toarray(),
@@ -557,10 +557,10 @@ def get_nlce_exp_val(exp_vals_clusters,
 
     b = list(exp_vals_clusters[0, ...].shape)
     size = [len(order_start_indices) - 1] + [int(c) for c in b]
-    nlce_orders = np.zeros(tuple(size))
+    nlce_orders = np.zeros(tuple(size), dtype=weights.dtype)
     for ii in range(0, len(order_start_indices) - 1):
-        nlce_orders[ii, ...] = np.squeeze(np.tensordot(parent_clust_multiplicity_vect[0, order_start_indices[ii]:order_start_indices[ii+1]][None, :],
-                                                 weights[order_start_indices[ii]:order_start_indices[ii+1], ...], axes=(1, 0))) / nsites
+        nlce_orders[ii, ...] = np.tensordot(parent_clust_multiplicity_vect[0, order_start_indices[ii]:order_start_indices[ii+1]][None, :],
+                                            weights[order_start_indices[ii]:order_start_indices[ii+1], ...], axes=(1, 0))[0] / nsites
 
     return exp_val_nlce, nlce_orders, weights
 
@@ -574,7 +574,7 @@ def euler_resum(exp_vals_orders,
     :return:
     """
     # TODO: test
-    euler_orders = np.zeros(exp_vals_orders.shape)
+    euler_orders = np.zeros(exp_vals_orders.shape, dtype=np.result_type(exp_vals_orders, y, float))
 
     for ii in range(0, euler_orders.shape[0]):
         jjs = np.arange(0, ii + 1)
-- 
2.43.0


From 1123c9e694846f96f51baf8188be0cf1cca3513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:13 +0000
Subject: [PATCH 31/38] fix: 1d Fermi gas correlators used the unused second
 separation component to detect coincident sites

---
 exact_diag/fermi_gas.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index 85e98aa..f7dcdde 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -519,7 +519,8 @@ def fg_corr(beta,
     :return:
     """
     gfn_lesser = fg_realspace_gfn(beta, mu, corr_index, 0., nsites, dim, type="lesser")[0]
-    delta = not np.any(corr_index)
+    # only the first component of the separation is meaningful in 1d
+    delta = not np.any(corr_index if dim == '2d' else corr_index[0])
     corr = delta * np.abs(gfn_lesser) - np.abs(gfn_lesser)**2
 
     return corr
@@ -876,7 +877,8 @@ def fg_sx_corr(beta,
     """
     gfn_lesser_up = fg_realspace_gfn(beta, mu_up, corr_index, 0., nsites, dim, type="lesser")[0]
     gfn_lesser_dn = fg_realspace_gfn(beta, mu_dn, corr_index, 0., nsites, dim, type="lesser")[0]
-    delta = not np.any(corr_index)
+    # only the first component of the separation is meaningful in 1d
+    delta = not np.any(corr_index if dim == '2d' else corr_index[0])
     corr_sx = np.real(delta * (np.abs(gfn_lesser_up) + np.abs(gfn_lesser_dn)) - gfn_lesser_up * gfn_lesser_dn.conj() - gfn_lesser_dn * gfn_lesser_up.conj())
 
     return corr_sx
-- 
2.43.0


From 94a65fdf13d1edb37a554d029beb242e74597870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:13 +0000
Subject: [PATCH 32/38] fix: rounding dropped the tau = beta sample from the
 imaginary time Fourier transform

---
 exact_diag/greens_fns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/greens_fns.py b/exact_diag/greens_fns.py
index edc360d..d4cd7a2 100644
--- a/exact_diag/greens_fns.py
+++ b/exact_diag/greens_fns.py
@@ -197,11 +197,11 @@ def grnfn_imagtime_ft(matsubara_frqs,
     if not np.any(np.round(np.abs(taus - beta), 14) == 0):
         warn('tau = beta was not supplied to grnfn_imagtime_ft.')
 
-    if np.round(taus, 14).max() > beta or np.round(taus, 14).min() < 0:
+    if np.round(taus - beta, 14).max() > 0 or np.round(taus, 14).min() < 0:
         warn('taus supplied to grnfn_imagtime_ft contained values smaller than 0 or'
              ' larger than beta. Those values will be ignored in the calculation',
              RuntimeWarning)
-        indices_to_use = np.logical_and(np.round(taus, 14) >= 0, np.round(taus, 14) <= beta)
+        indices_to_use = np.logical_and(np.round(taus, 14) >= 0, np.round(taus - beta, 14) <= 0)
         grn_fn_imagtime = grn_fn_imagtime[indices_to_use]
         taus = taus[indices_to_use]
 
-- 
2.43.0


From a38cf7c27ac40757199d8ee12761639504d83350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:02 +0000
Subject: [PATCH 33/38] fix: conductivity integral included numerically
 degenerate states and was nan at low temperature

---
 exact_diag/ed_fermions.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 618a0fb..babca20 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -551,20 +551,21 @@ class fermions(ed_base):
             [a, b] = np.meshgrid(eig_vals, eig_vals)
             omegas = b - a
 
-            weight = np.divide(1 - np.exp(- beta * omegas), omegas)
-            weight[omegas == 0] = 0
-            # multiply each column by the appropriate exponentail factor and weight. Then sum over everything.
-            # think of n as columns, n as rows
+            # exp(-beta * E_n) * (1 - exp(-beta * (E_m - E_n))) / (E_m - E_n), avoiding overflow at low temperatures.
+            # degenerate energies only agree up to rounding error
+            weight = np.divide(np.exp(- beta * a) - np.exp(- beta * b), omegas)
+            weight[np.abs(omegas) < 1e-10] = 0
+            # multiply each matrix element by its weight. Then sum over everything.
+            # think of n as columns, m as rows
             sigma_re_two_sided_int = np.pi / z / nsites * \
-                                     np.sum(np.sum(np.multiply(np.square(np.abs(current_matrix_elems)).dot(
-                                         np.diag(np.exp(- beta * eig_vals))), weight)))
+                                     np.sum(np.multiply(np.square(np.abs(current_matrix_elems)), weight))
 
         else:
             # period_start = 0, only need to sum over one set of states
             omegas = eig_vals - eig_vals[0]
             # omegas[omegas == 0] = 1e9
             weight = np.divide(1, omegas)
-            weight[omegas == 0] = 0
+            weight[np.abs(omegas) < 1e-10] = 0
             current_matrix_elems = current_matrix_elems[:, 0]
             # we are effectively doing the one-sided integral, therefore we need to multiply this by 2
             sigma_one_sided_int = np.pi / nsites * np.sum(np.multiply(np.square(np.abs(current_matrix_elems)), weight))
-- 
2.43.0


From ef1519de35c8be43c3e9b973d45636ff4e361c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:02 +0000
Subject: [PATCH 34/38] fix: optical conductivity lost negative frequency
 weight to overflow at low temperature

---
 exact_diag/ed_fermions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index babca20..1bca557 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -608,7 +608,9 @@ class fermions(ed_base):
             [a, b] = np.meshgrid(eig_vals, eig_vals)
             omegas = b - a
 
-            thermal_mat_elem = np.square(np.abs(current_matrix_elems)).dot(np.diag(np.exp(- beta * eig_vals)))
+            # exp(-beta * E_n) * (1 - exp(-beta * (E_m - E_n))), avoiding overflow at low temperatures
+            thermal_mat_elem = np.multiply(np.square(np.abs(current_matrix_elems)),
+                                           np.exp(- beta * a) - np.exp(- beta * b))
             omegas = omegas[np.abs(current_matrix_elems) > 10 ** -16].flatten()
             thermal_mat_elem = thermal_mat_elem[np.abs(current_matrix_elems) > 10 ** -16].flatten()
             # there is some ambiguity in how to define this function. In particular,
@@ -619,9 +621,7 @@ class fermions(ed_base):
             # get rid of these elements, because this is zero (and we shouldn't evaluate omega_start = 0).
             # If we put both as e_m-e_n, then we get a nan, which is also removed later.
             # But we should not put them both as omega_start, because???
-            omega_fn = lambda wo, eta, w, amp: np.divide(np.multiply(1 - np.exp(-beta * w),
-                                                                     lor(wo, eta, w, amp)),
-                                                         wo)
+            omega_fn = lambda wo, eta, w, amp: np.divide(lor(wo, eta, w, amp), wo)
 
         else:
             z = 1
-- 
2.43.0


From 11190b9993089d4b75dc7166ed727b6af25ab0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:02 +0000
Subject: [PATCH 35/38] fix: retarded response lost weight to overflow at low
 temperature

---
 exact_diag/ed_base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 38eae51..868101b 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -1108,9 +1108,10 @@ class ed_base:
             beta = 1 / temperature
             z = np.sum(np.exp(- beta * eig_vals))
             mat_elem = np.multiply(a_matrix_elems, b_matrix_elems.transpose())
-            # statistical weight belongs to the state n, which is the row index of M_nm
-            thermal_mat_elem = np.diag(np.exp(- beta * eig_vals)).dot(mat_elem)
-            omega_fn = lambda wo, eta, es, amp: np.multiply(1 + factor * np.exp(beta * es), lor(wo + es, eta, amp))
+            # statistical weights of the states n (row index of M_nm) and m. These must not be written in terms of
+            # exp(beta * (E_n - E_m)), which overflows at low temperatures
+            thermal_mat_elem = np.multiply(np.exp(- beta * b) + factor * np.exp(- beta * a), mat_elem)
+            omega_fn = lambda wo, eta, es, amp: lor(wo + es, eta, amp)
 
         else:
             z = 1
-- 
2.43.0


From c1c80100b879d8073fdd9b0dcdb7c86ad9496b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:09 +0000
Subject: [PATCH 36/38] fix: chemical potential solver returned wrong values
 for many densities and temperatures

---
 exact_diag/fermi_gas.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index f7dcdde..638591d 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -429,7 +429,7 @@ def fg_mu(beta,
     :param dim:
     :return mu:
     """
-    # TODO: this still fails at T = 0 and low T near half-filling
+    # TODO: this still fails at T = 0
 
     beta = np.asarray(beta)
     if beta.ndim == 0:
@@ -457,22 +457,17 @@ def fg_mu(beta,
             mu[coord] = fg_mu(beta[coord], density[coord], nsites, dim)
     else:
         min_fn = lambda mu: np.abs(fg_density(beta, mu, nsites, dim) - density)
-        jacobian = lambda mu: fg_compressibility(beta, mu, nsites, dim)
-        jacobian_fsqr = lambda mu: 2 * min_fn(mu) * jacobian(mu)
 
-        # mu_guess = np.array([0.0])
-        # result = scipy.optimize.minimize(min_fn, mu_guess)
-        # mu = result.x
-
-        if density == 0.5:
+        if density == 0.5 and (beta == 0 or beta == np.inf):
             mu = 0
         elif beta != np.inf:
-            # seems to work more robustly than scipy.optimize.minimize
-            # but fails at half-filling. jacobian_fsqr has a zero there...is that the reason?
-            fit_handle = root_scalar(jacobian_fsqr, x0=-0.1, x1=0.1)
+            # the density increases with mu. All energies lie within the bandwidth, so this interval contains the solution
+            bandwidth = 2. if dim == '1d' else 4.
+            mu_flat_band = (np.log(density / (1 - density)) / beta).item()
+            fit_handle = root_scalar(lambda mu: (fg_density(beta, mu, nsites, dim) - density).item(),
+                                     bracket=[mu_flat_band - bandwidth - 1, mu_flat_band + bandwidth + 1])
             mu = fit_handle.root
         else:
-            # jacobian_fsqr = -inf here, which is why this fials otherwise...
             mu_guess = np.array([0.0])
             result = minimize(min_fn, mu_guess)
             mu = result.x
-- 
2.43.0


From 25dfafa75d13d25d5134f3761bc96c27ab1271a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:58 +0000
Subject: [PATCH 37/38] fix: findSiteCycles reports one application for a
 single site

The initial value of current_sites equalled the starting configuration of a one-site geometry, so the loop did not
run and the number of applications was reported as 0.
---
 exact_diag/ed_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 2efce3e..26c77d0 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -186,7 +186,7 @@ def findSiteCycles(transform_fn,
     # find the number of transformations required to get us_interspecies back to our initial configuration
     # column k of trans_sites is the site labels after performing the transformation k-times
     trans_sites = sites[:, None]
-    current_sites = np.zeros(sites.shape)
+    current_sites = -np.ones(sites.shape)
     max_iter = nsites + 1
     ii = 0
     while not np.array_equal(current_sites, sites) and ii < max_iter:
-- 
2.43.0


From f4e7952d6320e2d621d118fce40dd4e9a52b555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:23 +0000
Subject: [PATCH 38/38] fix: top_alternating sorting gave undefined keys for
 rows at non-integer distances

---
 exact_diag/ed_geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index cb07fa1..3446f66 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -399,7 +399,9 @@ class Geometry:
             # For lattice where periodicity respects A and B sublattices, this should
             # order the sites so that every other number is on a different sublattice.
             # This is helpful because it makes identifying some states easier
-            sorted_indices = np.lexsort((self.xlocs * np.power(-1., self.ylocs - np.max(self.ylocs)), -self.ylocs))
+            # rows are counted from the top, because their distances need not be integers
+            _, rows = np.unique(np.round(-self.ylocs, self._compare_decimals), return_inverse=True)
+            sorted_indices = np.lexsort((self.xlocs * np.power(-1., rows), rows))
         elif sorting_mode == 'top_left':
             # put sites in order top-to-bottom, then left-to-right
             # sort on largest-y (smallest -y), then sort on smallest-x
-- 
2.43.0

