From 9103f9e6279d356d7aadf09a2e6b9586569543cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 01/33] fix: add_bosonic adds along the requested axis instead
 of always axis 0

---
 src/dga/matsubara_frequencies.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dga/matsubara_frequencies.py b/src/dga/matsubara_frequencies.py
index c541b65..686dcba 100644
--- a/src/dga/matsubara_frequencies.py
+++ b/src/dga/matsubara_frequencies.py
@@ -239,12 +239,16 @@ def add_bosonic(mat1, mat2, axis=0):
     if niw_2 <= niw_1:
         result = np.copy(mat1)
         nl, nu = niw_1 - niw_2, niw_1 + niw_2 + 1
-        result[nl:nu] += mat2
+        ind = [slice(None)] * result.ndim
+        ind[axis] = slice(nl, nu)
+        result[tuple(ind)] += mat2
         return result
     else:
         result = np.copy(mat2)
         nl, nu = niw_2 - niw_1, niw_2 + niw_1 + 1
-        result[nl:nu] += mat1
+        ind = [slice(None)] * result.ndim
+        ind[axis] = slice(nl, nu)
+        result[tuple(ind)] += mat1
         return result
 
 
-- 
2.43.0


From a1ae982e68bb1ada3419812136daa94e9e3d2161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 02/33] fix: do not use the full-frequency mirror shortcut for
 the bubble in the centred notation

---
 src/dga/bubble.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dga/bubble.py b/src/dga/bubble.py
index 97482d6..cf337ca 100644
--- a/src/dga/bubble.py
+++ b/src/dga/bubble.py
@@ -24,6 +24,7 @@ def get_gchi0(giw, beta, niv, iwn, freq_notation='minus'):
 
 
 def vec_get_gchi0(giw, beta, niv, wn, freq_notation='minus', is_full_wn=False):
+    is_full_wn = is_full_wn and freq_notation != 'center'  # no mirror symmetry of v for odd w
     if is_full_wn:
         wn_pos = mf.wn(mf.niw_from_mat(wn), pos=True)
         gchi0 = np.array([get_gchi0(giw, beta, niv, iwn=iwn, freq_notation=freq_notation) for iwn in wn_pos])
@@ -45,6 +46,7 @@ def get_gchi0_q(giwk, beta, niv, iwn, q, freq_notation='minus'):
 
 
 def vec_get_gchi0_q(giwk, beta, niv, wn, q_list, freq_notation='minus', is_full_wn=False):
+    is_full_wn = is_full_wn and freq_notation != 'center'  # no mirror symmetry of v for odd w
     wn_bub = mf.wn(mf.niw_from_mat(wn), pos=True) if is_full_wn else wn
     gchi0_q = np.zeros((len(q_list), len(wn_bub), niv * 2), dtype=complex)
     giwk = mf.cut_v(giwk, niv_cut=niv + np.max(np.abs(wn_bub)), axes=(-1,))
@@ -65,6 +67,7 @@ def get_chi0_q(giwk, beta, niv, iwn, q, freq_notation='minus'):
 
 
 def vec_get_chi0_q(giwk, beta, niv, wn, q_list, freq_notation='minus', is_full_wn=False):
+    is_full_wn = is_full_wn and freq_notation != 'center'  # no mirror symmetry of v for odd w
     wn_bub = mf.wn(mf.niw_from_mat(wn), pos=True) if is_full_wn else wn
     chi0_q = np.zeros((len(q_list), len(wn_bub)), dtype=complex)
     giwk = mf.cut_v(giwk, niv_cut=niv + np.max(np.abs(wn_bub)), axes=(-1,))
@@ -80,6 +83,7 @@ def get_chi0_sum(giw, beta, niv, iwn=0, freq_notation='minus'):
 
 
 def vec_get_chi0_sum(giw, beta, niv, wn, freq_notation='minus', is_full_wn=False):
+    is_full_wn = is_full_wn and freq_notation != 'center'  # no mirror symmetry of v for odd w
     if is_full_wn:
         wn_pos = mf.wn(mf.niw_from_mat(wn), pos=True)
         chi0 = np.array([get_chi0_sum(giw, beta, niv, iwn=iwn, freq_notation=freq_notation) for iwn in wn_pos])
-- 
2.43.0


From e3884c3ecaab45b20ab962f421643a7b3058617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 03/33] fix: momentum-dependent asymptotic bubble sum covers
 every listed bosonic frequency

---
 src/dga/bubble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/bubble.py b/src/dga/bubble.py
index cf337ca..a6802b7 100644
--- a/src/dga/bubble.py
+++ b/src/dga/bubble.py
@@ -270,7 +270,7 @@ class BubbleGenerator():
         if freq_notation is None:
             freq_notation = self.freq_notation
         chi0_asympt_sum = np.zeros((len(q_list), self.niw), dtype=complex)
-        v = 1 / (1j * mf.vn(self.beta, niv_sum + self.niw))
+        v = 1 / (1j * mf.vn(self.beta, niv_sum + np.max(np.abs(self.wn))))
         niv = v.size // 2
         fac1, fac2, fac3 = self.get_asympt_prefactors_q(q_list)
         for i, iwn in enumerate(self.wn):
-- 
2.43.0


From 1cd3455a3367d80250be3fac78d9d2f2cb71a184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 04/33] fix: estimated core window of the self-energy never
 exceeds the data and keeps them when the tail is not reached

---
 src/dga/two_point.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index 38ce0b9..403016a 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -139,11 +139,14 @@ class SelfEnergy():
     def estimate_niv_core(self):
         '''check when the real and the imaginary part are within error margin of the asymptotic'''
         asympt = self.get_asympt(niv_asympt=self.niv, n_min=0)
-        ind_real = np.argmax(np.abs(self.k_mean().real - asympt.real) < self.err)
-        ind_imag = np.argmax(np.abs(self.k_mean().imag - asympt.imag) < self.err)
+        conv_real = np.abs(self.k_mean().real - asympt.real) < self.err
+        conv_imag = np.abs(self.k_mean().imag - asympt.imag) < self.err
+        # argmax is zero also if the asymptotic is never reached; then all supplied frequencies have to be kept
+        ind_real = np.argmax(conv_real) if np.any(conv_real) else self.niv
+        ind_imag = np.argmax(conv_imag) if np.any(conv_imag) else self.niv
         niv_core = max(ind_real, ind_imag)
         if niv_core < self.niv_core_min:
-            return self.niv_core_min
+            return min(self.niv_core_min, self.niv)
         else:
             return niv_core
 
-- 
2.43.0


From f37abbf972573c6c69d000fd02a3720b7c9d283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:30 +0000
Subject: [PATCH 05/33] fix: keep the sign of the bosonic frequency when
 reading vertex rank files

load_vertex_from_rank_files and load_optics_vertex_from_rank_files parsed the
group name with \d+, so negative frequencies were stored at the positive ones
(and then overwritten) and the negative half of the vertex stayed zero.
---
 src/dga/four_point.py | 2 +-
 src/dga/optics.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 5704a1a..10109f2 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -327,7 +327,7 @@ def load_vertex_from_rank_files(output_path, name, mpi_size, nq, niw, niv):
             for key1 in keys:
                 # extract the q indizes from the group name!
                 irrq = np.array(re.findall(r'\d+', key1), dtype=int)[0]
-                iwn = np.array(re.findall(r'\d+', key1), dtype=int)[1] + niw
+                iwn = np.array(re.findall(r'-?\d+', key1), dtype=int)[1] + niw
                 f1_magn[irrq, iwn, ...] = file_in.file[key1 + '/f1_magn/'][()]
                 f2_dens[irrq, iwn, ...] = file_in.file[key1 + '/f2_dens/'][()]
                 f1_dens[irrq, iwn, ...] = file_in.file[key1 + '/f1_dens/'][()]
diff --git a/src/dga/optics.py b/src/dga/optics.py
index 425876f..33717b8 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -254,7 +254,7 @@ def load_optics_vertex_from_rank_files(output_path, name, mpi_size, nq, optics_c
             for key1 in keys:
                 # extract the q indizes from the group name!
                 irrq = np.array(re.findall(r'\d+', key1), dtype=int)[0]
-                iwn = np.array(re.findall(r'\d+', key1), dtype=int)[1] + niw_vert
+                iwn = np.array(re.findall(r'-?\d+', key1), dtype=int)[1] + niw_vert
                 f1_magn[irrq, iwn, ...] = file_in.file[key1 + '/f1_magn/'][()]
                 f2_dens[irrq, iwn, ...] = file_in.file[key1 + '/f2_dens/'][()]
                 f1_dens[irrq, iwn, ...] = file_in.file[key1 + '/f1_dens/'][()]
-- 
2.43.0


From 1b33172d722660bbd183e77e4ff3f1e8a8ecdc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:27 +0000
Subject: [PATCH 06/33] fix: orbital labels of the real-space Hamiltonian are
 set for every lattice vector

---
 src/dga/wannier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index 49b7a48..7fb4038 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -70,7 +70,7 @@ def create_orbs(n_rp, n_orbs):
     orbs = np.zeros((n_rp, n_orbs, n_orbs, 2))
     for io1 in range(n_orbs):
         for io2 in range(n_orbs):
-            orbs[io1, io2, :] = np.array([io1 + 1, io2 + 1])
+            orbs[:, io1, io2, :] = np.array([io1 + 1, io2 + 1])
     return orbs
 
 
-- 
2.43.0


From d3ff39f5b09880a7ee14e82e8ac87fcd3e9f6e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 07/33] fix: second-neighbour hopping along z of the 3d
 dispersions uses cos(2kz)

---
 src/dga/wannier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index 7fb4038..df68e7f 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -341,7 +341,7 @@ def ekpq_3d(kx=None, ky=None, kz=None, qx=0, qy=0, qz=0, t_mat=None):
     kz = kz + qz
     ek = - 2.0 * (t_mat[0, 0] * np.cos(kx) + t_mat[0, 1] * np.cos(ky) + t_mat[0, 2] * np.cos(kz))
     ek = ek - 2.0 * (t_mat[1, 0] * np.cos(kx + ky) + t_mat[1, 1] * np.cos(kx - ky))
-    ek = ek - 2.0 * (t_mat[2, 0] * np.cos(2. * kx) + t_mat[2, 1] * np.cos(2. * ky) + t_mat[2, 2] * np.cos(kz))
+    ek = ek - 2.0 * (t_mat[2, 0] * np.cos(2. * kx) + t_mat[2, 1] * np.cos(2. * ky) + t_mat[2, 2] * np.cos(2. * kz))
     return ek
 
 
@@ -351,7 +351,7 @@ def ek_3d(kgrid=None, hr=None):
     kz = kgrid[2][None, None, :]
     ek = - 2.0 * (hr[0, 0] * np.cos(kx) + hr[0, 1] * np.cos(ky) + hr[0, 2] * np.cos(kz))
     ek = ek - 2.0 * (hr[1, 0] * np.cos(kx + ky) + hr[1, 1] * np.cos(kx - ky))
-    ek = ek - 2.0 * (hr[2, 0] * np.cos(2. * kx) + hr[2, 1] * np.cos(2. * ky) + hr[2, 2] * np.cos(kz))
+    ek = ek - 2.0 * (hr[2, 0] * np.cos(2. * kx) + hr[2, 1] * np.cos(2. * ky) + hr[2, 2] * np.cos(2. * kz))
     return ek
 
 
@@ -361,7 +361,7 @@ def ek_3d_klist(kgrid=None, hr=None):
     kz = kgrid[:, 2]
     ek = - 2.0 * (hr[0, 0] * np.cos(kx) + hr[0, 1] * np.cos(ky) + hr[0, 2] * np.cos(kz))
     ek = ek - 2.0 * (hr[1, 0] * np.cos(kx + ky) + hr[1, 1] * np.cos(kx - ky))
-    ek = ek - 2.0 * (hr[2, 0] * np.cos(2. * kx) + hr[2, 1] * np.cos(2. * ky) + hr[2, 2] * np.cos(kz))
+    ek = ek - 2.0 * (hr[2, 0] * np.cos(2. * kx) + hr[2, 1] * np.cos(2. * ky) + hr[2, 2] * np.cos(2. * kz))
     return ek
 
 
-- 
2.43.0


From 30c61b4167a59ee7fbbb70807d500398bde9d03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 08/33] fix: momenta along a k-path use the grid of their own
 axis

---
 src/dga/brillouin_zone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index d6024a1..ef6a0c8 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -378,7 +378,7 @@ class KPath():
         self.k_points = self.get_kpoints()
 
     def get_kpath_val(self):
-        k = [self.kx[self.kpts[:, 0]], self.kx[self.kpts[:, 1]], self.kx[self.kpts[:, 2]]]
+        k = [self.kx[self.kpts[:, 0]], self.ky[self.kpts[:, 1]], self.kz[self.kpts[:, 2]]]
         return k
 
     def set_kgrid(self, k_in, nk):
-- 
2.43.0


From d1cf350a5ffa195d6901281de314dace8385e57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 09/33] fix: symmetrize_irrk averages over the points of the
 flattened mesh and keeps the shape

---
 src/dga/brillouin_zone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index ef6a0c8..b301821 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -300,8 +300,8 @@ class KGrid():
         shp = np.shape(mat_reshape)
         reduced = np.zeros((self.nk_irr,) + shp[1:], dtype=mat_reshape.dtype)
         for i in range(self.nk_irr):
-            reduced[i, ...] = np.mean(mat_reshape[self.fbz2irrk == self.irrk_ind[i], ...], axis=0)
-        return self.map_irrk2fbz(mat=reduced)
+            reduced[i, ...] = np.mean(mat_reshape[self.irrk_inv == i, ...], axis=0)
+        return self.map_irrk2fbz(mat=reduced).reshape(np.shape(mat))
 
     def shift_mat_by_pi(self, mat, axes=(0, 1, 2)):
         mat_shift = mat
-- 
2.43.0


From 4f0aa83577025be314c8c94ec34da3ee3996da9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:18 +0000
Subject: [PATCH 10/33] fix: DMFT potential energy is taken from the DMFT
 propagator

---
 src/dga/dga_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 81b5971..b373e96 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -274,7 +274,7 @@ def main():
         e_kin_dga = giwk_dga.e_kin
         e_kin_dmft = giwk_dmft.e_kin
         e_pot_dga = giwk_dga.e_pot
-        e_pot_dmft = giwk_dga.e_pot
+        e_pot_dmft = giwk_dmft.e_pot
         np.savetxt(d_cfg.output_path + '/energies.txt', [[e_kin_dga, e_kin_dmft, e_pot_dga, e_pot_dmft]],
                    header='kin-dga kin-dmft pot-dga pot-dmft', fmt='%.6f')
 
-- 
2.43.0


From c8e75fb35f13202d4f12f9d747b55b55740c4e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:18 +0000
Subject: [PATCH 11/33] fix: asymptotic box is not fixed before the core box is
 known

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 5179e25..f1e6f3a 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -168,7 +168,7 @@ class BoxSizes(ConfigBase):
         if (config_dict is not None):
             self.update_dict(**config_dict)  # forwards parameters from config
 
-        if (self.niv_asympt == -1):
+        if (self.niv_asympt == -1 and self.niv_core != -1 and self.niw_core != -1):
             self.niv_asympt = self.niv_full + self.niw_core * 2
 
     @property
-- 
2.43.0


From f5f4b87b7a92579e17e9752067e5d37d481bf075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:18 +0000
Subject: [PATCH 12/33] fix: unknown symmetries in a tuple are refused

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index f1e6f3a..62a3aab 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -256,7 +256,7 @@ class LatticeConfig(ConfigBase):
         elif (isinstance(self.symmetries, tuple)):
             for sym in self.symmetries:
                 if (sym not in bz.KNOWN_SYMMETRIES):
-                    NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
+                    raise NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
         else:
             raise NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
 
-- 
2.43.0


From 5c4839829bdf1cdcea53c3a77f4c303c290e0651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:18 +0000
Subject: [PATCH 13/33] fix: default number of conductivity frequencies leaves
 fermionic frequencies for the vertex

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 62a3aab..1496066 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -462,7 +462,7 @@ class OpticsConfig(OutputConfig):
                                                         'or equal to the number of frequencies available.'
 
         if (self.niw_cond == -1):
-            self.niw_cond = d_cfg.box.niw_core // 2
+            self.niw_cond = min(d_cfg.box.niw_core // 2, d_cfg.box.niv_core - 1)
         else:
             assert self.niw_cond < d_cfg.box.niv_core, 'Number of bosonic frequencies for the optical conductivity must be ' \
                                                        'smaller than the number of fermionic frequencies available.'
-- 
2.43.0


From 2cdb6983f335a908e8f33dd64407ef3c3b27976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:00 +0000
Subject: [PATCH 14/33] fix: fermionic grid of the full box can be requested

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 1496066..528e9f4 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -177,7 +177,7 @@ class BoxSizes(ConfigBase):
 
     @property
     def vn_full(self):
-        return mf.vn(n=self.niv_full)
+        return mf.vn(self.niv_full)
 
     @property
     def niv_pp(self):
-- 
2.43.0


From 6afcd4de6d2043761ed45aa07b7e241deba53704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:09 +0000
Subject: [PATCH 15/33] fix: symmetrization of single-particle data reads and
 writes the giw group

---
 src/dga/symmetrize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/symmetrize.py b/src/dga/symmetrize.py
index 00ea7ed..e33226d 100644
--- a/src/dga/symmetrize.py
+++ b/src/dga/symmetrize.py
@@ -273,15 +273,15 @@ def main(conf):
     copyfile(conf['infile'],conf['outfile'])
     f2=h5py.File(conf['outfile'],'r+')
     for ineq in range(conf['nineq']):
-      f2['dmft-last/ineq-{:03}/giw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/giwk_obj'.format(ineq+1)]
-      del f2['dmft-last/ineq-{:03}/giwk_obj'.format(ineq+1)]
-      f2['dmft-last/ineq-{:03}/giwk_obj/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
+      f2['dmft-last/ineq-{:03}/giw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/giw'.format(ineq+1)]
+      del f2['dmft-last/ineq-{:03}/giw'.format(ineq+1)]
+      f2['dmft-last/ineq-{:03}/giw/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
       f2['dmft-last/ineq-{:03}/siw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/siw'.format(ineq+1)]
       del f2['dmft-last/ineq-{:03}/siw'.format(ineq+1)]
       f2['dmft-last/ineq-{:03}/siw/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/siw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
       for band in range(conf['Nbands'][ineq]):
         for symband in conf['sym'][ineq][band]:
-          f2['dmft-last/ineq-{:03}/giwk_obj/value'.format(ineq+1)][band,:,:] += \
+          f2['dmft-last/ineq-{:03}/giw/value'.format(ineq+1)][band,:,:] += \
             np.mean(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)][symband-1,:,:]/float(len(conf['sym'][ineq][band])), axis=0)
           f2['dmft-last/ineq-{:03}/siw/value'.format(ineq+1)][band,:,:] += \
             np.mean(f2['dmft-last/ineq-{:03}/siw_unsymmetrized/value'.format(ineq+1)][symband-1,:,:]/float(len(conf['sym'][ineq][band])), axis=0)
-- 
2.43.0


From 21eb6f95b1ba3526cfb596bdc36bfefc85911081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:35 +0000
Subject: [PATCH 16/33] fix: default model of the bosonic continuation is
 normalised to the static value

---
 src/dga/analytic_continuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 676f088..3f03cfd 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -318,7 +318,7 @@ class MaxEnt():
     def cont_single_ind(self, mat):
         mat_plus = self.cut_matrix(mat)
         im_axis = self.get_im_freq()
-        model = self.get_model(mat)
+        model = self.get_model(mat_plus)
         error_s = np.ones_like(im_axis,dtype=float) * self.err
 
         problem = cont.AnalyticContinuationProblem(im_axis=im_axis, re_axis=self.w, im_data=mat_plus,
-- 
2.43.0


From b7f0dc4693ba0ffeb61e7e937446fd1cd22226be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:42 +0000
Subject: [PATCH 17/33] fix: the mesh of the MaxEnt configuration follows the
 given settings

---
 src/dga/config.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 528e9f4..7440846 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -347,13 +347,8 @@ class MaxEntConfig(OutputConfig):
         self.update_dict(**config_dict)
 
     @property
-    def mesh_type(self):
-        return self._mesh_type
-
-    @mesh_type.setter
-    def mesh_type(self, value):
-        self._mesh_type = value
-        self.mesh = self.get_omega_mesh()
+    def mesh(self):
+        return self.get_omega_mesh()
 
     def get_omega_mesh(self):
         import dga.analytic_continuation as a_cont
-- 
2.43.0


From cae545bf60f70841183aaf000c435f3d4edccc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 18/33] fix: distribute fermionic data of the continuation
 according to the k-grid

---
 src/dga/dga_max_ent.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dga/dga_max_ent.py b/src/dga/dga_max_ent.py
index 1cf8262..62ce01c 100644
--- a/src/dga/dga_max_ent.py
+++ b/src/dga/dga_max_ent.py
@@ -83,6 +83,9 @@ def main(path='./', comm=None):
     # Create a mpi distributor:
     mpi_dist = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.q_grid.nk_irr, comm=comm,
                                           name='MaxEntIrrk')
+    # fermionic quantities live on the k-grid, which may differ from the q-grid:
+    mpi_dist_k = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.k_grid.nk_irr, comm=comm,
+                                          name='MaxEntIrrkFermionic')
 
     # Continuation of the k-dependent self-energy:
     if 's_dga' in max_ent_config:
@@ -98,7 +101,7 @@ def main(path='./', comm=None):
             else:
                 sigma_mat = None
 
-            siw_cont = a_cont.mpi_ana_cont(sigma_mat, me_controller, mpi_dist, 'siwk_dga', logger = logger)
+            siw_cont = a_cont.mpi_ana_cont(sigma_mat, me_controller, mpi_dist_k, 'siwk_dga', logger = logger)
             if comm.rank == 0:
                 siw_cont = d_cfg.lattice.k_grid.map_irrk2fbz(siw_cont) + sigma_dga.smom0  # add Hartree
                 a_cont.save_and_plot_cont_fermionic(siw_cont, me_controller.w, d_cfg.lattice.k_grid, 'swk_dga', siw_cont_path)
@@ -138,7 +141,7 @@ def main(path='./', comm=None):
             else:
                 mat = None
 
-            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist, 'giwk_dga', logger = logger)
+            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist_k, 'giwk_dga', logger = logger)
             if(comm.rank == 0):
                 cont = d_cfg.lattice.k_grid.map_irrk2fbz(cont)
                 a_cont.save_and_plot_cont_fermionic(cont, me_controller.w, d_cfg.lattice.k_grid, f'gwk_dga', cont_path)
@@ -192,6 +195,7 @@ def main(path='./', comm=None):
             logger.log_cpu_time(task=' MaxEnt Chi-magn ')
 
     mpi_dist.delete_file()
+    mpi_dist_k.delete_file()
 
 
 
-- 
2.43.0


From 504e27897a59b079501b5ba84e7c6ac841caf8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:47 +0000
Subject: [PATCH 19/33] fix: continuation result keeps shape and type when
 entries fail or a process has no entries

---
 src/dga/analytic_continuation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 3f03cfd..0159fa4 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -339,14 +339,16 @@ class MaxEnt():
         return cont_mat
 
     def analytic_continuation(self, mat_list):
-        cont_list = []
-        for mat in mat_list:
+        # shape and data type must not depend on the number of (successful) entries, since the result is gathered among ranks
+        dtype = complex if self.kernel_mode == 'freq_fermionic' else float
+        cont_list = np.zeros((len(mat_list), len(self.w)), dtype=dtype)
+        for i, mat in enumerate(mat_list):
             try:
-                cont_list.append(self.cont_single_ind(mat))
+                cont_list[i] = self.cont_single_ind(mat)
             except:
                 print('Error in analytic continuation. Setting result to 0.')
-                cont_list.append(np.zeros_like(self.w))  # make sure the code does not hang up when ana_cont fails for one index
-        return np.array(cont_list)
+                cont_list[i] = 0  # make sure the code does not hang up when ana_cont fails for one index
+        return cont_list
 
 
 def mpi_ana_cont(mat, me_controller: MaxEnt, mpi_dist: mpi_aux.MpiDistributor, name, logger=None):
-- 
2.43.0


From 46ed8d2a5ee48043da6d430ec263bb306defcc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:32 +0000
Subject: [PATCH 20/33] fix: real-frequency bubble uses the propagator at the
 shifted frequency on every mesh

---
 src/dga/optics.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/dga/optics.py b/src/dga/optics.py
index 33717b8..16a2d3f 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -57,23 +57,23 @@ def vec_get_chijj_bubble_realf(gwk_obj: twop.RealFrequencyGF, hr: wannier.Wannie
     assert np.max(gwk_obj.w) > w_max_bub, r'w_max_bub is larger than the maximum frequency in the Green\'s function'
     lv_a = hr.get_light_vertex(k_grid, der=der_a)
     lv_b = hr.get_light_vertex(k_grid, der=der_b)
-    w_0_ind = np.argmin(np.abs(gwk_obj.w))
-    w_mbub_ind = np.argmin(np.abs(gwk_obj.w - w_max_bub))
-    w_int_ind = len(gwk_obj.w) - w_mbub_ind
-    nu = w_0_ind + w_int_ind
-    nl = w_0_ind - w_int_ind + len(gwk_obj.w) % 2
+    w = gwk_obj.w
+    w_mbub_ind = np.argmin(np.abs(w - w_max_bub))
+    w_bub = w[:w_mbub_ind][w[:w_mbub_ind] > 0]
+    # integrate over all frequencies for which v+w and v-w are inside of the mesh:
+    ind_int = np.abs(w) <= min(w[-1], -w[0]) - w[w_mbub_ind]
+    w_int = w[ind_int]
     lv2 = lv_a * lv_b
-    awk = gwk_obj.awk()[..., nl:nu]
-    w_int = gwk_obj.w[nl:nu]
+    awk = gwk_obj.awk()[..., ind_int]
     nf = fermi_function(w_int, beta)[None, None, None, :]
-    w_bub = gwk_obj.w[w_0_ind + 1:w_mbub_ind]
+    # the mesh is in general not uniform and thus does not contain v+w and v-w:
+    gwk_interp = interp1d(w, gwk_obj.gwk(), axis=-1)
 
-    def get_chijj_bubble_realf_iw(i):
+    def get_chijj_bubble_realf_iw(w_i):
         return -2 * np.mean(
-            lv2 * np.trapz(nf * awk * (gwk_obj.gwk()[..., nl + i:nu + i] + np.conj(gwk_obj.gwk())[..., nl - i:nu - i])
-                           , w_int, axis=-1))
+            lv2 * np.trapz(nf * awk * (gwk_interp(w_int + w_i) + np.conj(gwk_interp(w_int - w_i))), w_int, axis=-1))
 
-    chi_jj = np.array([get_chijj_bubble_realf_iw(i + 1) for i, _ in enumerate(w_bub)])
+    chi_jj = np.array([get_chijj_bubble_realf_iw(w_i) for w_i in w_bub])
     return chi_jj, w_bub
 
 
-- 
2.43.0


From 986b9389f3dd540ba5a879252d86688327863bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:07 +0000
Subject: [PATCH 21/33] fix: polynomial fits of the DGA self-energy and
 propagator belong to the momentum they are stored at

---
 src/dga/dga_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/dga_io.py b/src/dga/dga_io.py
index 77b1f8f..616f489 100644
--- a/src/dga/dga_io.py
+++ b/src/dga/dga_io.py
@@ -252,11 +252,11 @@ def default_giwk_checks(d_cfg: config.DgaConfig, giwk_dga, sigma_dga):
 def dga_poly_fit(d_cfg: config.DgaConfig, sigma_dga, giwk_dga):
     if d_cfg.do_poly_fitting and d_cfg.comm.rank == 0:
         # Extrapolate the self-energy to the Fermi-level via polynomial fit:
-        poly_fit(sigma_dga.get_siw(d_cfg.box.niv_full, pi_shift=True), d_cfg.sys.beta,
+        poly_fit(sigma_dga.get_siw(d_cfg.box.niv_full), d_cfg.sys.beta,
                  d_cfg.lattice.k_grid, d_cfg.n_fit,
                  d_cfg.o_fit, name='Siwk_poly_cont_', output_path=d_cfg.poly_fit_dir)
 
-        poly_fit(giwk_dga.g_full(pi_shift=True), d_cfg.sys.beta, d_cfg.lattice.k_grid, d_cfg.n_fit,
+        poly_fit(giwk_dga.g_full(), d_cfg.sys.beta, d_cfg.lattice.k_grid, d_cfg.n_fit,
                  d_cfg.o_fit,
                  name='Giwk_dga_poly_cont_',
                  output_path=d_cfg.poly_fit_dir)
-- 
2.43.0


From f87b7d52934fa3ac6cfd7eae03779cf9b57b91e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:07 +0000
Subject: [PATCH 22/33] fix: optical conductivity from the vertex part alone
 does not stop the program

---
 src/dga/dga_main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index b373e96..af80f8f 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -353,9 +353,11 @@ def main():
             d_cfg.optics.save_data(chijj_vert, 'chijj_vert')
         d_cfg.logger.log_event('Optics vertex completed!')
 
-    if comm.rank == 0 and 'optics' in conf_file:
-        # Plot the optical conductivity on matsubara frequencies:
+    if comm.rank == 0 and (d_cfg.optics.do_bubble or d_cfg.optics.do_vertex):
+        # Contributions that were not requested are zero:
         if chijj_vert is None: chijj_vert = np.zeros_like(chijj_bubble)
+        if chijj_bubble is None: chijj_bubble = np.zeros_like(chijj_vert)
+        # Plot the optical conductivity on matsubara frequencies:
 
         optics.plot_opt_cond_matsubara(chijj_bubble, chijj_vert, do_save=True, pdir=d_cfg.optics.output_path)
 
-- 
2.43.0


From 442cb14522806dce4e4f955b80a0384ee45c104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:13 +0000
Subject: [PATCH 23/33] fix: read Hamiltonian files with a version header
 (np.int is gone from numpy)

---
 src/dga/wannier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index df68e7f..da87789 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -398,7 +398,7 @@ def read_hk_w2k(fname, spin_sym=True):
     if header[0] == 'VERSION':
         warn('Version 2 headers are obsolete (specify in input file!)')
         nkpoints, natoms = map(int, nextline())
-        lines = np.array([nextline() for _ in range(natoms)], np.int)
+        lines = np.array([nextline() for _ in range(natoms)], int)
         nbands = np.sum(lines[:, :2])
         del lines, natoms
     elif len(header) != 3:
-- 
2.43.0


From 4c5c8c1c448fc237a3798b81e47220f46587087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:13 +0000
Subject: [PATCH 24/33] fix: Pade routines use builtin complex and bool
 (aliases are gone from numpy)

---
 src/dga/pade_aux.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dga/pade_aux.py b/src/dga/pade_aux.py
index 94e419c..79a038c 100644
--- a/src/dga/pade_aux.py
+++ b/src/dga/pade_aux.py
@@ -161,7 +161,7 @@ class PadeSolver():
 
 def compute_coefficients(zi,ui):
   n=len(zi)
-  g=np.zeros((n,n),dtype=np.complex)
+  g=np.zeros((n,n),dtype=complex)
   g[:,0]=ui
   for i in range(n):
     for j in range(1,i+1):
@@ -265,7 +265,7 @@ def padeMatrix(z, f, N, verbose=False):
     M = len(z)
     r = N // 2
     y = f * z ** r
-    A = np.ones((M, N), dtype=np.complex)
+    A = np.ones((M, N), dtype=complex)
     for i in range(M):
         A[i, :r] = z[i] ** (np.arange(r))
         A[i, r:] = -f[i] * z[i] ** (np.arange(r))
@@ -554,7 +554,7 @@ def pade(zin, fin, zout):
                 d[i] = np.sum(delta[:i, i]) + np.sum(delta[i, i + 1:])
             # calculate if to include or reject continuations based on two criteria:
             c1 = d <= c1v * np.mean(d)
-            c2 = np.zeros(len(d), dtype=np.bool)
+            c2 = np.zeros(len(d), dtype=bool)
             ind = np.argsort(d)[:int(c2v * len(d))]  # indices to 51% lowest distances
             c2[ind] = True
             mask = c1 & c2  # continuations to include
-- 
2.43.0


From 86cc082aa4706fbc25d2f814739abbfe44a5c5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:13 +0000
Subject: [PATCH 25/33] fix: method 'pade' of the continuation problem finds
 the Pade solver

---
 src/ana_cont/continuation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ana_cont/continuation.py b/src/ana_cont/continuation.py
index ec20c81..2697caf 100644
--- a/src/ana_cont/continuation.py
+++ b/src/ana_cont/continuation.py
@@ -106,7 +106,8 @@ class AnalyticContinuationProblem(object):
         elif method == 'maxent_mc':
             raise NotImplementedError
         elif method == 'pade':
-            self.solver = solvers.PadeSolver(
+            from dga.pade_aux import PadeSolver
+            self.solver = PadeSolver(
                 im_axis = self.im_axis, re_axis = self.re_axis,
                 im_data = self.im_data)
             return self.solver.solve()
-- 
2.43.0


From e52148e116815894900029d7ec2ffe33fc7b6205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:19 +0000
Subject: [PATCH 26/33] fix: particle-hole symmetric data are checked by their
 own real and imaginary part

---
 src/ana_cont/continuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ana_cont/continuation.py b/src/ana_cont/continuation.py
index 2697caf..262c77a 100644
--- a/src/ana_cont/continuation.py
+++ b/src/ana_cont/continuation.py
@@ -62,9 +62,9 @@ class AnalyticContinuationProblem(object):
             #self.im_data = np.concatenate((im_data.real, im_data.imag))
         elif self.kernel_mode == 'freq_fermionic_phsym':
             # check if data are purely imaginary
-            if np.allclose(im_axis.real, 0.):
+            if np.allclose(im_data.real, 0.):
                 self.im_data = im_data.imag
-            elif np.allclose(im_axis.imag, 0.): # if only the imaginary part is passed
+            elif np.allclose(im_data.imag, 0.): # if only the imaginary part is passed
                 self.im_data = im_data.real
             else:
                 print('The data are neither purely real nor purely imaginary,')
-- 
2.43.0


From 4d5b37a92c956b0fc4beb2e32bd3a1b2b2336da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:19 +0000
Subject: [PATCH 27/33] fix: spectra from particle-hole symmetric
 imaginary-time data carry the factor beta

---
 src/ana_cont/continuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ana_cont/continuation.py b/src/ana_cont/continuation.py
index 262c77a..398077e 100644
--- a/src/ana_cont/continuation.py
+++ b/src/ana_cont/continuation.py
@@ -97,7 +97,7 @@ class AnalyticContinuationProblem(object):
                 kernel_mode = self.kernel_mode, 
                 **kwargs)
             sol = self.solver.solve(**kwargs)
-            if self.kernel_mode == 'time_fermionic':
+            if self.kernel_mode in ('time_fermionic', 'time_fermionic_phsym'):
                 sol[0].A_opt *= self.beta
             elif self.kernel_mode == 'time_bosonic':
                 sol[0].A_opt *= self.beta
@@ -125,7 +125,7 @@ class AnalyticContinuationProblem(object):
             # truncate ustart to actual number of significant singular values
             kwargs['ustart'] = kwargs['ustart'][:self.solver.n_sv]
             sol = self.solver.maxent_optimization(**kwargs)
-            if self.kernel_mode == 'time_fermionic':
+            if self.kernel_mode in ('time_fermionic', 'time_fermionic_phsym'):
                 sol.A_opt *= self.beta
             elif self.kernel_mode == 'time_bosonic':
                 sol.A_opt *= self.beta
-- 
2.43.0


From 396877187e391bf321ea980614b6ed7e2b979edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:19 +0000
Subject: [PATCH 28/33] fix: primitive search of the chemical potential runs

---
 src/dga/two_point.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index 403016a..b1ff109 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -231,7 +231,7 @@ def get_fill_primitive(g_loc, beta, verbose=False):
 def root_fun_primitive(mu=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0, verbose=False):
     """Auxiliary function for the root finding"""
     g_loc = get_gloc(iv=iv, hk=hk, siwk=siwk, mu_trial=mu)
-    return get_fill_primitive(g_loc, beta, verbose)[0] - target_filling
+    return get_fill_primitive(g_loc, beta, verbose) - target_filling
 
 
 def update_mu_primitive(mu0=0.0, target_filling=None, iv=None, hk=None, siwk=None, beta=None, smom0=None, tol=1e-6,
@@ -241,7 +241,7 @@ def update_mu_primitive(mu0=0.0, target_filling=None, iv=None, hk=None, siwk=Non
     '''
     if verbose: print('Update mu...')
     mu = mu0
-    hloc = None
+    hloc = hk.mean()
     if verbose: print(
         root_fun(mu=mu, target_filling=target_filling, iv=iv, hk=hk, siwk=siwk, beta=beta, smom0=smom0, hloc=hloc))
     try:
-- 
2.43.0


From f12d113aaf0a2d86ead57304fcd7e0bd6eb800c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:19 +0000
Subject: [PATCH 29/33] fix: get_vrg_and_chir_tilde_from_chir_uasympt does not
 pass u as summation axis

---
 src/dga/local_four_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/local_four_point.py b/src/dga/local_four_point.py
index 8e47124..c7077ea 100644
--- a/src/dga/local_four_point.py
+++ b/src/dga/local_four_point.py
@@ -451,7 +451,7 @@ def get_vrg_and_chir_tilde_from_chir_uasympt(chir: LocalFourPoint, gchi0_gen: bu
     chi_asympt = chi_phys_asympt(chi_urange, chi0_urange, chi0_asympt)
 
     # Compute the fermion-boson vertex:
-    vrg = vrg_from_gchi_aux_asympt(gchi_aux, gchi0_core, chi_urange, chi_asympt, u)
+    vrg = vrg_from_gchi_aux_asympt(gchi_aux, gchi0_core, chi_urange, chi_asympt)
 
     return vrg, chi_asympt
 
-- 
2.43.0


From c5c9e751dad20184d31694f8cb7a09fd0767bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:54 +0000
Subject: [PATCH 30/33] fix: recorded settings keep numbers and dictionaries of
 the configuration file and open values

---
 src/dga/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 7440846..46d92de 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -84,7 +84,7 @@ class ConfigBase():
     def as_dict(self, obj=None):
         if obj is None:
             obj = self
-        if not hasattr(obj, "__dict__"):
+        if not isinstance(obj, ConfigBase):
             return obj
         result = {}
         for key, val in obj.__dict__.items():
@@ -93,9 +93,9 @@ class ConfigBase():
             element = []
             if isinstance(val, list):
                 for item in val:
-                    element.append(self.as_dict(item))
+                    element.append(item if item is None else self.as_dict(item))
             else:
-                element = self.as_dict(val)
+                element = val if val is None else self.as_dict(val)
             result[key] = element
         return result
 
-- 
2.43.0


From f83ce0ac6d986824948885d084ebb6e8a83e6b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:53 +0000
Subject: [PATCH 31/33] fix: titles of the gap function figure name the
 frequency drawn

---
 src/dga/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index 676257d..56de891 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -561,8 +561,8 @@ def plot_gap_function_kx_ky(mat, kx, ky, do_save=True, pdir='./', name='', cmap=
     axes = axes.flatten()
     im1 = axes[0].pcolormesh(kx, ky, mat[...,0].T.real, cmap=cmap)
     im2 = axes[1].pcolormesh(kx, ky, mat[...,1].T.real, cmap=cmap)
-    axes[0].set_title(r'$\nu_{n=0}$')
-    axes[1].set_title(r'$\nu_{n=-1}$')
+    axes[0].set_title(r'$\nu_{n=-1}$')
+    axes[1].set_title(r'$\nu_{n=0}$')
     for ax in axes:
         ax.set_xlabel(r'$k_x$')
         ax.set_ylabel(r'$k_y$')
-- 
2.43.0


From dd1f36e70dab2b4a1f90de1b85c285ee575e6583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:53 +0000
Subject: [PATCH 32/33] fix: figures of the continued bosonic data are not
 transposed

---
 src/dga/plotting.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index 56de891..d3f1874 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -478,21 +478,21 @@ def plot_cont_fs_no_shift(output_path=None, name='', mat=None, v_real=None, k_gr
     gk_real = np.squeeze(mat_fs.real)
     v0 = np.argmin(np.abs(v_real))
     qdp = np.squeeze((1. / mat)[:, :, 0, v0].real)
-    im = ax[0].imshow(awk_fs, cmap='RdBu_r', extent=bz.get_extent(kgrid=k_grid), origin='lower')
+    im = ax[0].imshow(awk_fs.T, cmap='RdBu_r', extent=bz.get_extent(kgrid=k_grid), origin='lower')
     insert_colorbar(ax=ax[0], im=im)
     ax[0].set_title('$-1/pi \Im (k,\omega={})$'.format(w_plot))
     norm = MidpointNormalize(midpoint=0, vmin=gk_real.min(), vmax=gk_real.max())
-    im = ax[1].imshow(gk_real, cmap='RdBu', extent=bz.get_extent(kgrid=k_grid), norm=norm, origin='lower')
+    im = ax[1].imshow(gk_real.T, cmap='RdBu', extent=bz.get_extent(kgrid=k_grid), norm=norm, origin='lower')
     insert_colorbar(ax=ax[1], im=im)
     ax[1].set_title('$\Re (k,\omega={})$'.format(w_plot))
     norm = MidpointNormalize(midpoint=0, vmin=qdp.min(), vmax=qdp.max())
-    im = ax[2].imshow(qdp, cmap='RdBu', extent=bz.get_extent(kgrid=k_grid), norm=norm, origin='lower')
+    im = ax[2].imshow(qdp.T, cmap='RdBu', extent=bz.get_extent(kgrid=k_grid), norm=norm, origin='lower')
     insert_colorbar(ax=ax[2], im=im)
     ax[2].set_title('QPD $(1/(\Re (k, \omega = {})$'.format(w_plot))
 
-    add_afzb(ax=ax[0], kx=k_grid.kx, ky=k_grid.kx, lw=lw)
-    add_afzb(ax=ax[1], kx=k_grid.kx, ky=k_grid.kx, lw=lw)
-    add_afzb(ax=ax[2], kx=k_grid.kx, ky=k_grid.kx, lw=lw)
+    add_afzb(ax=ax[0], kx=k_grid.kx, ky=k_grid.ky, lw=lw)
+    add_afzb(ax=ax[1], kx=k_grid.kx, ky=k_grid.ky, lw=lw)
+    add_afzb(ax=ax[2], kx=k_grid.kx, ky=k_grid.ky, lw=lw)
 
     plt.tight_layout()
     fig.suptitle(name)
-- 
2.43.0


From 8f254c26046bccdca22b6d8b0071e3bbb4973ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:38 +0000
Subject: [PATCH 33/33] fix: draw the vertex with the axes of its own momentum
 mesh

---
 src/dga/four_point.py     |  8 ++++----
 src/dga/optics.py         | 12 ++++++------
 src/dga/pairing_vertex.py |  8 ++++----
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 10109f2..063f325 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -358,12 +358,12 @@ def build_vertex_fq(d_cfg: conf.DgaConfig, comm, chi_lad_magn, chi_lad_dens):
     gc.collect()
     niw = f_dens.shape[-3] // 2
     plotting.plot_kx_ky(f_dens[:, :, 0, niw, niv, niv],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.output_path, name='F_dens_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.output_path, name='F_dens_niw0')
 
     plotting.plot_kx_ky(f_magn[:, :, 0, niw, niv, niv],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.output_path, name='F_magn_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.output_path, name='F_magn_niw0')
     d_cfg.save_data(f_dens, 'F_dens')
     d_cfg.save_data(f_magn, 'F_magn')
     del f_dens, f_magn
diff --git a/src/dga/optics.py b/src/dga/optics.py
index 16a2d3f..b88058c 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -182,20 +182,20 @@ def build_vertex_for_optical_conductivity(d_cfg: conf.DgaConfig, comm, chi_lad_m
     gc.collect()
     niw = f_dens.shape[-3] // 2
     plotting.plot_kx_ky(f_dens[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_dens_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_dens_niw0')
 
     plotting.plot_kx_ky(f_magn[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_magn_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_magn_niw0')
 
     f_cond = -1 / 2 * f_dens - 3 / 2 * f_magn
     del f_dens, f_magn
     gc.collect()
 
     plotting.plot_kx_ky(f_cond[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_cond_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_cond_niw0')
 
     d_cfg.optics.save_data(f_cond, 'F_cond')
     del f_cond
diff --git a/src/dga/pairing_vertex.py b/src/dga/pairing_vertex.py
index ab43721..5a201d9 100644
--- a/src/dga/pairing_vertex.py
+++ b/src/dga/pairing_vertex.py
@@ -151,11 +151,11 @@ def build_pairing_vertex(d_cfg: conf.DgaConfig, comm, chi_lad_magn, chi_lad_dens
     f_sing = +1.5 * f_magn - 0.5 * f_dens
     f_trip = +0.5 * f_magn + 0.5 * f_dens
 
-    plotting.plot_kx_ky(f_sing[:, :, 0, d_cfg.box.niv_pp, d_cfg.box.niv_pp], d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.eliash.output_path, name='F_sing_pp')
+    plotting.plot_kx_ky(f_sing[:, :, 0, d_cfg.box.niv_pp, d_cfg.box.niv_pp], d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.eliash.output_path, name='F_sing_pp')
 
-    plotting.plot_kx_ky(f_trip[:, :, 0, d_cfg.box.niv_pp, d_cfg.box.niv_pp], d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.eliash.output_path, name='F_trip_pp')
+    plotting.plot_kx_ky(f_trip[:, :, 0, d_cfg.box.niv_pp, d_cfg.box.niv_pp], d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.eliash.output_path, name='F_trip_pp')
 
     f_sing_loc = d_cfg.lattice.q_grid.k_mean(f_sing, 'fbz-mesh')
     f_trip_loc = d_cfg.lattice.q_grid.k_mean(f_trip, 'fbz-mesh')
-- 
2.43.0

