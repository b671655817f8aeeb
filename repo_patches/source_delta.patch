From bb78e0231992b407ba421d4a12d5fdffeb0b7747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 01/95] fix: set_state_product used the wrong site's Hilbert
 space dimension

---
 evoMPS/mps_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 7270f74..160d18c 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -228,7 +228,7 @@ class EvoMPS_MPS_Generic(object):
 
         for n in range(self.N):
             self.A[n+1].fill(0)
-            for q in range(self.q[n]):
+            for q in range(self.q[n+1]):
                 self.A[n+1][q,0,0] = psi[n][q]
 
         if do_update:
-- 
2.43.0


From a854525e66f6f2203445836ff59cc05272551373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 02/95] fix: update(auto_truncate=True,
 restore_CF_after_trunc=False) in left form tried to assign to the identity
 l[0]

---
 evoMPS/mps_gen.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 160d18c..081e71f 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -667,8 +667,6 @@ class EvoMPS_MPS_Generic(object):
                 
             self.calc_r(n_high=n_last_trunc - 1)
         else:
-            self.l[0][0, 0] = 1
-            
             for n in range(1, self.N):
                 self.r[n] = m.simple_diag_matrix(old_r[n].diag[-self.D[n]:], dtype=self.typ)
                 
-- 
2.43.0


From 3fcdade1d716b60045b5c71fa81908968cf30c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 03/95] fix: restore_LCF set l[n] to the old bond dimension
 when the QR step reduced it

---
 evoMPS/tdvp_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index e07a466..4d22afc 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -1012,7 +1012,7 @@ def restore_LCF_l_seq(A, l, G0=None, sanity_checks=False, sc_data=''):
 
         A[n] = Q.reshape((q, Dm1_new, D_new))
         
-        l[n] = mm.eyemat(D, dtype=A[n].dtype)
+        l[n] = mm.eyemat(D_new, dtype=A[n].dtype)
         
         if sanity_checks:
             l_ = eps_l_noop(l[n - 1], A[n], A[n])
-- 
2.43.0


From 069cc2ea0b3fdd86cb6cd60ba6d7728ae1f7ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 04/95] fix: truncate() failed if all bond dimensions were left
 unchanged

---
 evoMPS/mps_gen.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 081e71f..40cb70d 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -634,8 +634,9 @@ class EvoMPS_MPS_Generic(object):
         assert new_D.shape == self.D.shape, "new_D must have same shape as self.D"
         assert sp.all(new_D <= self.D), "new bond-dimensions must be less than or equal to current dimensions"
     
-        last_trunc = sp.argwhere(self.D - new_D).max()
-        first_trunc = sp.argwhere(self.D - new_D).min()
+        truncated = sp.argwhere(self.D - new_D)
+        last_trunc = truncated.max(initial=0)
+        first_trunc = truncated.min(initial=self.N)
         
         tmp_A = self.A
         old_l = self.l
-- 
2.43.0


From 68aedef8f0c085c44815a86359247496ccb2ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 05/95] fix: correlation_1s_1s(return_exvals=True) returned the
 expectation values of op1 twice, and failed for d=0

---
 evoMPS/mps_gen.py     | 4 +---
 evoMPS/mps_uniform.py | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 40cb70d..11c122a 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -988,9 +988,7 @@ class EvoMPS_MPS_Generic(object):
             ccf[j] = cf[j] - ex1[0] * ex2[j]
             
         if return_exvals:
-            ex1_ = sp.tile(ex1, [(d + 1) // d + 1])[:d + 1]
-            ex2_ = sp.tile(ex1, [(d + 1) // d + 1])[:d + 1]
-            return ccf, ex1_, ex2_
+            return ccf, ex1, ex2
         else:
             return ccf
         
diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index c18943c..f66b79d 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1422,7 +1422,7 @@ class EvoMPS_MPS_Uniform(object):
             
         if return_exvals:
             ex1_ = sp.tile(ex1, [(d + 1) // L + 1])[:d + 1]
-            ex2_ = sp.tile(ex1, [(d + 1) // L + 1])[:d + 1]
+            ex2_ = sp.tile(ex2, [(d + 1) // L + 1])[:d + 1]
             return ccf, ex1_, ex2_
         else:
             return ccf
-- 
2.43.0


From b442120c1f786ec6e46040a1fc91c21e0bd6d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 06/95] fix: expect_string_1s was off by one in the string
 lengths and conjugated the result

---
 evoMPS/mps_gen.py     | 10 +++++-----
 evoMPS/mps_uniform.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 11c122a..7c9392f 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -998,14 +998,14 @@ class EvoMPS_MPS_Generic(object):
         """
         if callable(op):
             op = sp.vectorize(op, otypes=[sp.complex128])
-            op = sp.fromfunction(op, (self.q, self.q))
+            op = sp.fromfunction(op, (self.get_q(n), self.get_q(n)))
         
-        res = sp.zeros((d), dtype=self.get_A(1).dtype)
+        res = sp.zeros((d), dtype=sp.complex128)
         x = self.get_l(n - 1)
-        for j in range(n, n + d + 1):
+        for j in range(n, n + d):
             Aop = sp.tensordot(op, self.get_A(j), axes=([1],[0]))
-            x = tm.eps_l_noop(x, self.get_A(j), Aop)
-            res[j - n - 1] = m.adot(x, self.get_r(j))
+            x = tm.eps_l_noop(x, Aop, self.get_A(j))
+            res[j - n] = m.adot(x, self.get_r(j))
         
         return res
 
diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index f66b79d..f0eed76 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1805,9 +1805,9 @@ class EvoMPS_MPS_Uniform(object):
         
         res = []
         x = self.l[(k - 1) % self.L]
-        for n in range(k, k + d + 1):
+        for n in range(k, k + d):
             nm = n % self.L
-            x = tm.eps_l_noop(x, self.A[nm], Aop[nm])
+            x = tm.eps_l_noop(x, Aop[nm], self.A[nm])
             res.append(m.adot(x, self.r[nm]))
         
         return np.array(res)
-- 
2.43.0


From 47b6765e9db5531fdd8b4b87cb36e33ec0421b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 07/95] fix: density_2s mixed up or overran its indices for
 sites of different dimension

---
 evoMPS/mps_gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 7c9392f..9ed7d8b 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -1079,7 +1079,7 @@ class EvoMPS_MPS_Generic(object):
     def density_2s(self, n1, n2):
         """Returns a reduced density matrix for a pair of (seperated) sites.
         
-        The site number basis is used: rho[s * q[n1] + u, t * q[n1] + v]
+        The site number basis is used: rho[s * q[n2] + u, t * q[n2] + v]
         with 0 <= s, t < q[n1] and 0 <= u, v < q[n2].
         
         The state must be up-to-date -- see self.update()!
@@ -1110,7 +1110,7 @@ class EvoMPS_MPS_Generic(object):
                     for t1 in range(self.q[n1]):
                         r_n1 = m.mmul(self.A[n1][t1], r_n, m.H(self.A[n1][s1]))
                         tmp = m.adot(self.l[n1 - 1], r_n1)
-                        rho[s1 * self.q[n1] + s2, t1 * self.q[n1] + t2] = tmp
+                        rho[s1 * self.q[n2] + s2, t1 * self.q[n2] + t2] = tmp
         return rho
     
     def apply_op_1s(self, op, n, do_update=True):
-- 
2.43.0


From 94e941a42f8c6b740e69a5ebe0e8df448888defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 08/95] fix: load_state could not read the files written by
 save_state

---
 evoMPS/mps_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 9ed7d8b..0d19af7 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -1196,7 +1196,7 @@ class EvoMPS_MPS_Generic(object):
         file ; path or file
             The file to load the state from.
         """
-        tmp_A = sp.load(file)
+        tmp_A = sp.load(file, allow_pickle=True)
 
         self.D[0] = 1
         for n in range(self.N):
-- 
2.43.0


From eafe13cbc991032c36d7d559b198f531921391df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 09/95] fix: initialize_state did not give norm 1 for all q and
 D

---
 evoMPS/mps_gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 0d19af7..e3caf35 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -207,7 +207,8 @@ class EvoMPS_MPS_Generic(object):
                     elif y >= self.A[n][s].shape[1]:
                         y = 0
                         s += 1
-    
+
+        self.A[self.N] /= sp.sqrt(self.inner(self).real)
 
     def set_state_product(self, psi, do_update=True):
         """Initializes the parameter tensors self.A from a pure product state.
-- 
2.43.0


From 0ecc7cbfbd0032a156624b4c09212c5391559af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 10/95] fix: mps_from_tensors_gen failed if a bond dimension
 exceeded the maximum useful value

---
 evoMPS/mps_gen.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index e3caf35..fc20926 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -49,11 +49,7 @@ def mps_from_tensors_gen(A, do_update=True):
     q = [0] + [An.shape[0] for An in A[1:]]
 
     s = EvoMPS_MPS_Generic(N, D, q)
-    for n in range(1, N+1):
-        s.A[n][:] = A[n]
-
-    if do_update:
-        s.update()
+    s.set_state_from_tensors(A, do_update=do_update)
 
     return s
 
-- 
2.43.0


From 3023edcd17f9f28b878e7e23857edc5a0b360232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 11/95] fix: the constructor failed for bond dimensions that
 jump by more than a factor q[n]

---
 evoMPS/mps_gen.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index fc20926..78ba3fd 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -22,22 +22,12 @@ def correct_bond_dim_open_chain(D, q):
     D[0] = 1
     D[N] = 1
 
-    qacc = 1
     for n in range(N - 1, -1, -1):
-        if qacc < D.max(): #Avoid overflow!
-            qacc *= q[n + 1]
+        D[n] = min(D[n], D[n + 1] * q[n + 1])
 
-        if D[n] > qacc:
-            D[n] = qacc
-            
-    qacc = 1
     for n in range(1, N + 1):
-        if qacc < D.max(): #Avoid overflow!
-            qacc *= q[n]
+        D[n] = min(D[n], D[n - 1] * q[n])
 
-        if D[n] > qacc:
-            D[n] = qacc
-            
     return D
 
 def mps_from_tensors_gen(A, do_update=True):
@@ -298,7 +288,8 @@ class EvoMPS_MPS_Generic(object):
         (when they would be higher than the corresponding maximum
         Schmidt ranks). The maximum value for D[n] is the minimum of the 
         dimensions of the two partial Hilbert spaces corresponding to a cut 
-        between sites n and n + 1.
+        between sites n and n + 1. It is also limited by the bond dimensions
+        of the neighbouring cuts, times the dimension of the site in between.
         """                
         
         self.D = correct_bond_dim_open_chain(self.D, self.q)
-- 
2.43.0


From e997759ac58c161520339a07283384797414fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 12/95] fix: calc_x_l_3s used the dimension of the wrong site

---
 evoMPS/tdvp_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index 4d22afc..046bd33 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -518,7 +518,7 @@ def calc_x_l_3s(Km1, C, Cm1, Cm2, rp1, rp2, lm2, lm3, AAm2, Am1, A, Ap1, AAp1, l
         lVL = np.array([lm1_si.dot(VL[s]) for s in range(q)])
         Am1lVL = calc_AA(Am1, lVL)
         Cm1_t = Cm1.transpose((2,0,1,3,4)).copy()
-        part = np.array([eps_l_op_2s_AA12_C34(lm2, Am1lVL, Cm1_t[s]) for s in range(q)])
+        part = np.array([eps_l_op_2s_AA12_C34(lm2, Am1lVL, Cm1_t[s]) for s in range(len(Cm1_t))])
         x += mm.mmul(eps_r_noop(rp1, part, Ap1), r_si)
 
     if Cm2 is not None:
-- 
2.43.0


From 33c163ace1fabe6f0eca1a6bde24888ece1ab3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 13/95] fix: calc_K_l failed for chains shorter than the
 Hamiltonian range

---
 evoMPS/tdvp_gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 22d49b4..f40e261 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -426,8 +426,8 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         if n_high < 1:
             n_high = self.N
             
-        self.K[1] = sp.zeros((self.D[1], self.D[1]), dtype=self.typ)
-        self.K[2] = sp.zeros((self.D[2], self.D[2]), dtype=self.typ)
+        for n in range(1, min(self.ham_sites, self.N + 1)):
+            self.K[n] = sp.zeros((self.D[n], self.D[n]), dtype=self.typ)
             
         for n in range(n_low, n_high + 1):
             #if n <= self.N - self.ham_sites + 1:
-- 
2.43.0


From d405de509282cd2dee5895804d5d7b87baab95d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 14/95] fix: left-gauge h_expect was shifted by one site for
 three-site terms

---
 evoMPS/tdvp_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index f40e261..36c8e76 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -439,7 +439,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                     self.K[n - 1], self.C[n - 2], self.l[n - 3], self.r[n],
                     self.A[n], self.AAA[n - 2])
 
-            self.h_expect[n - 1] = ex
+            self.h_expect[n - self.ham_sites + 1] = ex
             #else:
             #    self.K[n].fill(0)
                 
-- 
2.43.0


From 5057524e1d972424f712c9bb812edd72716f3697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 15/95] fix: update() failed after switching gauge_fixing from
 left to right

---
 evoMPS/tdvp_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 36c8e76..cba0431 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -411,7 +411,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
 
                 self.h_expect[n] = ex
             else:
-                self.K[n].fill(0)
+                self.K[n] = sp.zeros((self.D[n - 1], self.D[n - 1]), dtype=self.typ)
                 
         if n_low == 1:
             self.H_expect = sp.asscalar(self.K[1])
-- 
2.43.0


From 429a31389f1b6de9a522da241520cc6488395267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 16/95] fix: missing Hamiltonian terms (None) only worked for
 two-site terms in the right gauge

---
 evoMPS/tdvp_common.py | 18 ++++++++++--------
 evoMPS/tdvp_gen.py    |  6 +++++-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index 046bd33..bb5dd2d 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -425,11 +425,13 @@ def calc_x_3s(Kp1, C, Cm1, Cm2, rp1, rp2, lm2, lm3, Am2Am1, Am1, A, Ap1, Ap1Ap2,
     x = np.zeros((Dm1, q * D - Dm1), dtype=A.dtype)
     x_part = np.empty_like(x, order='C')
     
-    assert not (C is None and not Kp1 is None)
-    if not C is None:
+    if not C is None or not Kp1 is None:
         x_part.fill(0)
-        for s in range(q):            
-            x_subpart = eps_r_op_2s_C12_AA34(rp2, C[s], Ap1Ap2) #~1st line
+        for s in range(q):
+            if C is None:
+                x_subpart = np.zeros_like(A[s])
+            else:
+                x_subpart = eps_r_op_2s_C12_AA34(rp2, C[s], Ap1Ap2) #~1st line
             
             if not Kp1 is None:
                 x_subpart += A[s].dot(Kp1) #~3rd line
@@ -451,7 +453,7 @@ def calc_x_3s(Kp1, C, Cm1, Cm2, rp1, rp2, lm2, lm3, Am2Am1, Am1, A, Ap1, Ap1Ap2,
             x_part += x_subpart.dot(r_si.dot(Vsh[t]))
         x += lm1_si.dot(x_part)
 
-    if not lm3 is None:
+    if not lm3 is None and not Cm2 is None:
         x_part.fill(0)
         for u in range(q):     #~2nd line
             x_subpart = eps_l_op_2s_AA12_C34(lm3, Am2Am1, Cm2[:, :, u])
@@ -485,7 +487,7 @@ def calc_x_l(Km1, C, Cm1, rp1, lm2, Am1, A, Ap1, lm1_s, lm1_si, r_s, r_si, VshL)
     for s in range(q):     #~2nd line
         x_subpart.fill(0)
 
-        if not lm2 is None:
+        if not lm2 is None and not Cm1 is None:
             x_subpart = eps_l_noop_inplace(lm2, Am1, Cm1[:, s], x_subpart)
         
         if not Km1 is None:
@@ -568,10 +570,10 @@ def calc_BB_Y_2s_ham_3s(A_m1, A_p2, C, C_m1, Vlh, Vrh_p1, l_m2, r_p2, l_s_m1, l_
         liVl[s] = l_si_m1.dot(Vl[s])
 
     Y = sp.zeros((Vlh.shape[1], Vrh_p1.shape[2]), dtype=Vrh_p1.dtype)
-    if not A_p2 is None:
+    if not A_p2 is None and not C is None:
         for s in range(C.shape[0]):
             Y += Vlh[s].dot(l_s_m1.dot(eps_r_op_2s_C12(r_p2, C[s], Vrri_p1, A_p2)))
-    if not A_m1 is None:
+    if not A_m1 is None and not C_m1 is None:
         for u in range(C_m1.shape[2]):
             Y += eps_l_op_2s_A1_A2_C34(l_m2, A_m1, liVl, C_m1[:, :, u]).dot(r_s_p1.dot(Vrh_p1[u]))
 
diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index cba0431..61d883f 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -431,7 +431,9 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             
         for n in range(n_low, n_high + 1):
             #if n <= self.N - self.ham_sites + 1:
-            if self.ham_sites == 2:
+            if self.C[n - self.ham_sites + 1] is None:
+                self.K[n], ex = (tm.eps_l_noop(self.K[n - 1], self.A[n], self.A[n]), 0)
+            elif self.ham_sites == 2:
                 self.K[n], ex = tm.calc_K_l(self.K[n - 1], self.C[n - 1], self.l[n - 2], 
                                             self.r[n], self.A[n], self.AA[n - 1])
             else:
@@ -614,6 +616,8 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         for n in range(1, self.N):
             if (not Vrh[n + 1] is None and not Vlh[n] is None):
                 if self.ham_sites == 2:
+                    if self.C[n] is None:
+                        continue
                     Y[n], etaBB_sq[n] = tm.calc_BB_Y_2s(self.C[n], Vlh[n], 
                                            Vrh[n + 1], l_s[n - 1], r_s[n + 1])
                 else:
-- 
2.43.0


From b5159467fa2c3d8fe23799e4f5f391611afd26cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 17/95] fix: evolve_scipy_ode failed, mixed gauges and evolved
 backwards in time

---
 evoMPS/dynamics.py | 44 +++++++++++++++-----------------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index 2e11fcf..c639297 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -274,24 +274,18 @@ def evolve_scipy_ode(s, Tmax, max_steps, rtol=1e-6, atol=1e-8, callback=None, in
             s.A[n][:] = sp.reshape(y[ist:iend], s.A[n].shape)
             ist = iend
 
-    is_first_call_in_step = [True]
     def ifunc(t, y):
-        #nonlocal is_first_call_in_step
         update_state_from_vec(s, y)
-        if is_first_call_in_step[0]:
-            s.update()
-            B = s.calc_B(set_eta=True)
-            is_first_call_in_step[0] = False
-        else:
-            s.update(restore_CF=False, normalize=False)
-            B = s.calc_B(set_eta=False)
+        #Note: The integrator only knows y, so we must not change the variables here.
+        s.update(restore_CF=False, normalize=False)
+        B = s.calc_B()
 
         for n in range(len(B)):
             if n > 0 and B[n] is None:
                 B[n] = sp.zeros_like(s.A[n])
 
         Bvec = tensors_to_vec(B)
-        Bvec = 1.j * Bvec #real time evolution!
+        Bvec = -1.j * Bvec #real time evolution!
         return Bvec
 
     print("Init:")
@@ -299,9 +293,9 @@ def evolve_scipy_ode(s, Tmax, max_steps, rtol=1e-6, atol=1e-8, callback=None, in
     print("Init done: h_abs = %g" % igrtr.h_abs)
     
     for i in range(max_steps):
-        s.update() #Note: This changes the variables (without changing the physical state).
-                   #      Should be ok as along as the integrator does not share variable info between steps.
-                   #      The integrator does store y_old, but only uses it for dense_output.
+        update_state_from_vec(s, igrtr.y)
+        s.update() #Note: This changes the variables (without changing the physical state),
+                   #      but not those stored by the integrator.
 
         if callback is not None:
             callback(s, igrtr, i)
@@ -310,11 +304,10 @@ def evolve_scipy_ode(s, Tmax, max_steps, rtol=1e-6, atol=1e-8, callback=None, in
             print("Stopping with status:", igrtr.status)
             break
 
-        is_first_call_in_step = True
         igrtr.step()
 
 def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
-        callback=None, integrator="RK45", wrap_to_real=False, **kwargs):
+        callback=None, integrator="zvode", wrap_to_real=False, **kwargs):
     def state_to_vec(s):
         return sp.hstack([s.A[n].ravel() for n in range(1, s.N+1)])
 
@@ -328,24 +321,18 @@ def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
             s.A[n][:] = sp.reshape(y[ist:iend], s.A[n].shape)
             ist = iend
 
-    is_first_call_in_step = [True]
     def ifunc(t, y):
-        #nonlocal is_first_call_in_step
         update_state_from_vec(s, y)
-        if is_first_call_in_step[0]:
-            s.update()
-            B = s.calc_B(set_eta=True)
-            is_first_call_in_step[0] = False
-        else:
-            s.update(restore_CF=False, normalize=False)
-            B = s.calc_B(set_eta=False)
+        #Note: The integrator only knows y, so we must not change the variables here.
+        s.update(restore_CF=False, normalize=False)
+        B = s.calc_B()
 
         for n in range(len(B)):
             if n > 0 and B[n] is None:
                 B[n] = sp.zeros_like(s.A[n])
 
         Bvec = tensors_to_vec(B)
-        Bvec = 1.j * Bvec #real time evolution!
+        Bvec = -1.j * Bvec #real time evolution!
         return Bvec
 
     print("Init:")
@@ -357,9 +344,9 @@ def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
     igrtr.set_initial_value(state_to_vec(s))
     
     for i in range(steps):
-        s.update() #Note: This changes the variables (without changing the physical state).
-                   #      Should be ok as along as the integrator does not share variable info between steps.
-                   #      The integrator does store y_old, but only uses it for dense_output.
+        update_state_from_vec(s, igrtr.y)
+        s.update() #Note: This changes the variables (without changing the physical state),
+                   #      but not those stored by the integrator.
 
         if callback is not None:
             callback(s, igrtr, i)
@@ -368,5 +355,4 @@ def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
             print("Stopping with status:", igrtr.get_return_code())
             break
 
-        is_first_call_in_step = True
         igrtr.integrate(igrtr.t + dt)
\ No newline at end of file
-- 
2.43.0


From ea6cf0bd0a464940fe221e5f4dd601089da623c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 18/95] fix: evolve() could lose a step to rounding errors

---
 evoMPS/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index c639297..ee51a78 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -12,7 +12,7 @@ import scipy.integrate as intg
 def evolve(sys, t, dt=0.01, integ="euler",
     dynexp=True, D_max=128, dD_max=128, sv_tol=1e-14, cb_func=None,
     auto_truncate=True):
-    num_steps = int(t / dt)
+    num_steps = int(t / dt + 1e-9) #Avoid losing a step to rounding errors
     for i in range(num_steps + 1):
         sys.update(auto_truncate=auto_truncate)
         B = sys.calc_B()
-- 
2.43.0


From 94113e0d5fa14454654a29e68aeedbf07779ca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 19/95] fix: evolve_scipy_ode left the state at an internal
 stage of the last step, and the old version ignored its tolerances

---
 evoMPS/dynamics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index ee51a78..988d329 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -306,6 +306,9 @@ def evolve_scipy_ode(s, Tmax, max_steps, rtol=1e-6, atol=1e-8, callback=None, in
 
         igrtr.step()
 
+    update_state_from_vec(s, igrtr.y)
+    s.update()
+
 def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
         callback=None, integrator="zvode", wrap_to_real=False, **kwargs):
     def state_to_vec(s):
@@ -340,7 +343,7 @@ def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
         igrtr = intg.complex_ode(ifunc)
     else:
         igrtr = intg.ode(ifunc)
-    igrtr.set_integrator(integrator, **kwargs)
+    igrtr.set_integrator(integrator, rtol=rtol, atol=atol, **kwargs)
     igrtr.set_initial_value(state_to_vec(s))
     
     for i in range(steps):
@@ -355,4 +358,7 @@ def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
             print("Stopping with status:", igrtr.get_return_code())
             break
 
-        igrtr.integrate(igrtr.t + dt)
\ No newline at end of file
+        igrtr.integrate(igrtr.t + dt)
+
+    update_state_from_vec(s, igrtr.y)
+    s.update()
-- 
2.43.0


From 4c0bea5687f5eab7b3627f66d6d16ed823bc50cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 20/95] fix: take_step_RK4 overwrote the tangent vector passed
 by the caller

---
 evoMPS/tdvp_gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 61d883f..69a62cb 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -953,7 +953,8 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         #Take a copy of the current state
         A0 = [An.copy() if not An is None else None for An in self.A]
         
-        B_fin = self.calc_B() if B_i is None else B_i[:]
+        B_fin = self.calc_B() if B_i is None else [
+            Bn.copy() if not Bn is None else None for Bn in B_i]
 
         for n in range(1, self.N + 1):
             if not B_fin[n] is None:
-- 
2.43.0


From 731222027d70b37067df6cae7f9f82dce23fa9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 21/95] fix: line search failed for callable Hamiltonians and
 for missing terms

---
 evoMPS/tdvp_gen.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 69a62cb..067b17a 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1036,13 +1036,12 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                     self.simple_renorm()
                     self.calc_C()
                     
-                    h_exp = 0
-                    if self.ham_sites == 2:
-                        for n in range(1, self.N):
-                            h_exp += self.expect_2s(self.ham[n], n).real
+                    if self.gauge_fixing == 'right':
+                        self.calc_K()
                     else:
-                        for n in range(1, self.N - 1):
-                            h_exp += self.expect_3s(self.ham[n], n).real
+                        self.calc_K_l()
+
+                    h_exp = self.H_expect.real
                     res = h_exp
                 
                 log.debug((tau, res, h_exp, h_exp - h_expect_0.real))
-- 
2.43.0


From 7734413c72fa99fe921b54f7244d0626b5b17ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 22/95] fix: line search left AA, AAA and h_expect of the last
 trial state behind

---
 evoMPS/tdvp_gen.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 067b17a..8f15cbc 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -990,6 +990,9 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         As0 = cp.deepcopy(self.A)
         Cs0 = cp.deepcopy(self.C)
         Ks0 = cp.deepcopy(self.K)
+        AAs0 = cp.deepcopy(self.AA)
+        AAAs0 = cp.deepcopy(self.AAA)
+        hs_expect_0 = self.h_expect.copy()
         h_expect_0 = self.H_expect
         
         ls0 = cp.deepcopy(self.l)
@@ -1098,6 +1101,9 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         self.r = rs0
         self.C = Cs0
         self.K = Ks0
+        self.AA = AAs0
+        self.AAA = AAAs0
+        self.h_expect = hs_expect_0
         self.H_expect = h_expect_0
         
         return tau_opt, h_min
-- 
2.43.0


From 26731b0fa567c288623ebfc1d4ab7ba213be43aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 23/95] fix: calc_lr rejected real largest eigenvalues of
 unnormalised uniform states

The imaginary part was compared to an absolute tolerance, so rounding
errors of a large eigenvalue made ARPACK 'fail to converge'.
---
 evoMPS/mps_uniform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index f0eed76..71ec417 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -366,11 +366,12 @@ class EvoMPS_MPS_Uniform(object):
                 ev, eV = las.eigs(opE, which=which, k=nev, v0=v0, tol=tol, ncv=ncv)
                 conv = True
                 ind = abs(ev).argmax()
-                ev = np.real_if_close(ev[ind])
-                ev = np.asscalar(ev)
+                ev = ev[ind]
                 eV = eV[:, ind]
                 if abs(ev) < 1E-12:
                     raise ValueError("Largest eigenvalue too small!")
+                #The tolerance must be relative to the magnitude
+                ev = np.asscalar(np.real_if_close(ev / abs(ev)) * abs(ev))
                 if symmetric and np.imag(ev) != 0:
                     raise ValueError("Largest eigenvalue is not real (%g)! (ncv too small?)" % np.imag(ev))
                 break
-- 
2.43.0


From 8158f0b99ce0eda552c10f4ebb5df8c28c253bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 24/95] fix: uniform eigenvalue solvers failed although the
 last retry had succeeded

---
 evoMPS/mps_uniform.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 71ec417..0da7ad6 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -380,8 +380,7 @@ class EvoMPS_MPS_Uniform(object):
                 v0 = None
                 nev += 1
                 ncv += 5
-                
-        if i == max_retries - 1:
+        else:
             log.error("_calc_lr_ARPACK(nev=%u,ncv=%u): Failed to converge! (%s)", nev, ncv, "l" if calc_l else "r")
             raise EvoMPSNoConvergence("_calc_lr_ARPACK: Failed to converge!")
         
@@ -454,8 +453,7 @@ class EvoMPS_MPS_Uniform(object):
                 log.warning("_calc_E_largest_eigenvalues: Retry %u!", i)
                 nev += 1
                 ncv = nev * 3
-        
-        if i == max_retries - 1:
+        else:
             log.error("_calc_E_largest_eigenvalues: Failed to converge!")
             raise EvoMPSNoConvergence("_calc_E_largest_eigenvalues failed!")
 
-- 
2.43.0


From 981037c9bbac4f4a8a73d85cc0aa45a9cfc1e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 25/95] fix: uniform restore_LCF did not restore left canonical
 form when diagonalizing r

---
 evoMPS/mps_uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 0da7ad6..c92d2e2 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -935,8 +935,8 @@ class EvoMPS_MPS_Uniform(object):
             if diag_r:
                 ev, EV = la.eigh(self.r[k])
         
-                G[k] = EV.dot(G[k])
-                G_i[k] = G_i[k].dot(EV.conj().T)
+                G[k] = G[k].dot(EV)
+                G_i[k] = EV.conj().T.dot(G_i[k])
                               
                 self.r[k] = m.simple_diag_matrix(ev, dtype=self.typ)
             
-- 
2.43.0


From 97e377bf20717d556e9d1d3a7f87119db39ce26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 26/95] fix: restore_SCF destroyed rank-deficient uniform
 states

The Schmidt coefficients are in descending order, but the last ones were
inverted instead of the first ones.
---
 evoMPS/mps_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index c92d2e2..4e412e1 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -741,7 +741,7 @@ class EvoMPS_MPS_Uniform(object):
             #Invert the square roots of the Schmidt coefficients.
             nonzeros = np.count_nonzero(S.diag > zero_tol)
             Srti = sp.zeros_like(S.diag, dtype=S.dtype)
-            Srti[-nonzeros:] = 1. / Srt.diag[-nonzeros:]
+            Srti[:nonzeros] = 1. / Srt.diag[:nonzeros] #descending order
             Srti = m.simple_diag_matrix(Srti, dtype=S.dtype)  
             
             g = Srti.dot(U.conj().T).dot(Y)
-- 
2.43.0


From f53c170fc58b7907c5f70b480f6c9751b84eee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 27/95] fix: numerically rank-deficient matrices were treated
 as full-rank by herm_fac_with_inv

Cholesky succeeds for matrices with eigenvalues at rounding-error level, so
that canonical forms of rank-deficient states had environments declared to
be the identity that were not, ignoring zero_tol.
---
 evoMPS/tdvp_common.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index bb5dd2d..54c84f0 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -645,12 +645,16 @@ def herm_fac_with_inv(A, lower=False, zero_tol=1E-15, return_rank=False,
     if not force_evd:
         try:
             x = la.cholesky(A, lower=lower)
-            if calc_inv:
-                xi = mm.invtr(x, lower=lower)
+            if abs(x.diagonal()).min()**2 <= zero_tol:
+                #Numerically rank-deficient, although Cholesky succeeded
+                force_evd = True
             else:
-                xi = None
-            
-            nonzeros = A.shape[0]
+                if calc_inv:
+                    xi = mm.invtr(x, lower=lower)
+                else:
+                    xi = None
+                
+                nonzeros = A.shape[0]
         except sp.linalg.LinAlgError: #this usually means a is not pos. def.
             force_evd = True
             
-- 
2.43.0


From 2882aae680338f9213043959cf5fe013bff1058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 28/95] fix: uniform expect_2s was wrong after update() and for
 block lengths > 1

update() does not compute self.AA, and the right environment of the wrong
site was used.
---
 evoMPS/mps_uniform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 4e412e1..de60702 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1451,8 +1451,10 @@ class EvoMPS_MPS_Uniform(object):
             op = np.vectorize(op, otypes=[np.complex128])
             op = np.fromfunction(op, (self.q, self.q, self.q, self.q))        
         
-        Ck = tm.calc_C_mat_op_AA(op, self.AA[k])
-        res = tm.eps_r_op_2s_C12_AA34(self.r[k], Ck, self.AA[k])
+        kp1 = (k + 1) % self.L
+        AAk = tm.calc_AA(self.A[k], self.A[kp1]) #self.AA need not be up-to-date
+        Ck = tm.calc_C_mat_op_AA(op, AAk)
+        res = tm.eps_r_op_2s_C12_AA34(self.r[kp1], Ck, AAk)
         
         return m.adot(self.l[k - 1], res)
         
-- 
2.43.0


From a876fbf948b9e00ad8a304c4326ad6a2647dbb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 29/95] fix: uniform expect_2s_tp used the wrong environment
 for block lengths > 1

---
 evoMPS/mps_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index de60702..bafc9f9 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1481,7 +1481,7 @@ class EvoMPS_MPS_Uniform(object):
         """
         L = self.L
         Ck = tm.calc_C_tp(op_tp, self.A[k], self.A[(k + 1) % L])
-        res = tm.eps_r_op_2s_C12_tp(self.r[k], Ck, self.A[k], self.A[(k + 1) % L])
+        res = tm.eps_r_op_2s_C12_tp(self.r[(k + 1) % L], Ck, self.A[k], self.A[(k + 1) % L])
         
         return m.adot(self.l[k - 1], res)
         
-- 
2.43.0


From 14c1a031013e7ead618176a582c394aed4d9f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 30/95] fix: uniform expect_3s failed for callable operators

---
 evoMPS/mps_uniform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index bafc9f9..d695a37 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1511,8 +1511,7 @@ class EvoMPS_MPS_Uniform(object):
 
         if callable(op):
             op = sp.vectorize(op, otypes=[sp.complex128])
-            op = sp.fromfunction(op, (A.shape[0], A.shape[0], A.shape[0],
-                                      A.shape[0], A.shape[0], A.shape[0]))
+            op = sp.fromfunction(op, (self.q,) * 6)
 
         C = tm.calc_C_3s_mat_op_AAA(op, AAA)
         res = tm.eps_r_op_3s_C123_AAA456(self.r[(k + 2) % self.L], C, AAA)
-- 
2.43.0


From d809b2eb742520186ac759f3f5e916ee805cbdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 31/95] fix: uniform entropy() returned nan when a Schmidt
 coefficient is zero

---
 evoMPS/mps_uniform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index d695a37..0634460 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1270,7 +1270,8 @@ class EvoMPS_MPS_Uniform(object):
             The squared Schmidt coefficients.
         """
         lam = self.schmidt_sq(k=k)
-        S = -np.sum(lam * sp.log2(lam)).real
+        lam_nz = np.asarray(lam)[np.real(lam) > 0] # lim lam -> 0 of lam * log2(lam) is 0
+        S = -np.sum(lam_nz * sp.log2(lam_nz)).real
             
         if ret_schmidt_sq:
             return S, lam
-- 
2.43.0


From c4fe29ae1aae3301ee29cf5b369ad677848735f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 32/95] fix: expect_sum_1s_density_hc() returned a different
 kind of result for D == 1

---
 evoMPS/mps_uniform.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 0634460..da6c476 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1720,7 +1720,11 @@ class EvoMPS_MPS_Uniform(object):
         expval2 = m.adot(self.l[k - 1], rops)
 
         if self.D == 1:
-            return sp.zeros((1), dtype=self.typ)
+            expvals = sp.zeros((1), dtype=self.typ)
+            if return_g:
+                return expvals, expval2/self.L, sp.zeros((1, 1), dtype=self.typ)
+            else:
+                return expvals, expval2/self.L
 
         Ashift = self.A[k:] + self.A[:k]
         virtop = pinv.pinv_1mE(
-- 
2.43.0


From b5c8295d22ce42b1caa7de186a310c86ce2d760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 33/95] fix: expect_sum_1s_density_hc() used the wrong bond's r
 for L > 1

---
 evoMPS/mps_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index da6c476..c37afb1 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1732,7 +1732,7 @@ class EvoMPS_MPS_Uniform(object):
             Ashift,
             Ashift,
             self.l[(k - 1) % self.L],
-            self.r[k],
+            self.r[(k - 1) % self.L],
             left=False,
             pseudo=True,
             tol=tol,
-- 
2.43.0


From a193436e25d150e62e87c29ae7504cf92758d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 34/95] fix: expect_string_1s_density_hc() returned nan when
 the leading expectation value is zero

---
 evoMPS/mps_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index c37afb1..c0caeb6 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1655,7 +1655,7 @@ class EvoMPS_MPS_Uniform(object):
         # since the operator is a symmetry) has zero phase:
         ssq = self.schmidt_sq((k - 1) % self.L)
         ind = ssq.real.argmax()
-        phase = sp.conj(expvals[ind]) / abs(expvals[ind])
+        phase = sp.conj(expvals[ind]) / abs(expvals[ind]) if expvals[ind] != 0 else 1.
         expvals *= phase
         virtop *= phase
 
-- 
2.43.0


From 08c6196d2130017e8e5adc587d38c55eb8f1491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 35/95] fix: uniform add_noise() added imaginary noise of fixed
 magnitude

---
 evoMPS/mps_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index c0caeb6..f9f983c 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -233,7 +233,7 @@ class EvoMPS_MPS_Uniform(object):
             norm = la.norm(Ak)
             f = fac * (norm / (self.q * self.D**2))
             R = np.empty_like(Ak)
-            m.randomize_cmplx(R, -f / 2.0, f / 2.0)
+            m.randomize_cmplx(R, -f / 2.0, f / 2.0, -f / 2.0, f / 2.0)
             
             Ak += R
         
-- 
2.43.0


From 648e60c21d5e07f9268280c8f46a9a9a84e0e9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 36/95] fix: force_sparse eigenvalue calculation crashed for
 very small transfer operators

---
 evoMPS/mps_uniform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index f9f983c..9d27144 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -421,7 +421,10 @@ class EvoMPS_MPS_Uniform(object):
             other=self
         ED = self.D * other.D
         
-        if (ED <= dense_cutoff or force_dense) and not force_sparse:
+        #ARPACK cannot handle the smallest problems
+        sparse_ok = ED > nev + 1
+
+        if (ED <= dense_cutoff or force_dense) and not (force_sparse and sparse_ok):
             E = self._get_dense_transfer_op_block(k=k, other=other)
                 
             if return_eigenvectors:
-- 
2.43.0


From 53971ec3d5df6162d083e934ca0ec7bc5f51d009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 37/95] fix: conjugated eigenvalue for left eigenvectors
 obtained with ARPACK

---
 evoMPS/mps_uniform.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 9d27144..ae12b69 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -460,6 +460,12 @@ class EvoMPS_MPS_Uniform(object):
             log.error("_calc_E_largest_eigenvalues: Failed to converge!")
             raise EvoMPSNoConvergence("_calc_E_largest_eigenvalues failed!")
 
+        if left:
+            #The left EOp implements E.conj().T, which has conjugated eigenvalues.
+            if return_eigenvectors:
+                return res[0].conj(), res[1]
+            return res.conj()
+
         return res
 
     def calc_E_gap(self, tol=1E-14, nev=2, ncv=None):
-- 
2.43.0


From 8d24d210c5bc49699ff80861a947858bff7bbead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 38/95] fix: phase_align() with states of different block
 length

---
 evoMPS/mps_uniform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index ae12b69..570f7cc 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1159,7 +1159,10 @@ class EvoMPS_MPS_Uniform(object):
         """
         _, phi = self.fidelity_per_site(other, full_output=False, left=False)
 
-        self.A[0] *= phi.conj() / abs(phi)
+        #The overlap transfer operator contains self.A[0] this many times.
+        n = other.L // gcd(self.L, other.L)
+
+        self.A[0] *= (phi.conj() / abs(phi))**(1. / n)
         
         return phi
 
-- 
2.43.0


From 1864b9856276727a11f3272844b64fae6f101523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 39/95] fix: gauge_align() for block lengths larger than one

---
 evoMPS/mps_uniform.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 570f7cc..7522a61 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1207,17 +1207,17 @@ class EvoMPS_MPS_Uniform(object):
         
         g = [None] * self.L
         gi = [None] * self.L
+        
+        gR = [None] * self.L
+        gR[-1] = gRL
+        for k in range(self.L - 1, 0, -1):
+            gR[k - 1] = tm.eps_r_noop(gR[k], self.A[k], other.A[k])
                 
         for k in range(self.L - 1, -1, -1):
-            if k == self.L - 1:
-                gRk = gRL
-            else:
-                gRk = tm.eps_r_noop(other.r[k + 1], self.A[k + 1], other.A[k + 1])
-                
             try:
-                g[k] = other.r[k].inv().dotleft(gRk)
-            except:
-                g[k] = gRk.dot(m.invmh(other.r[k]))
+                g[k] = other.r[k].inv().dot_left(gR[k])
+            except AttributeError:
+                g[k] = gR[k].dot(m.invmh(other.r[k]))
                 
             gi[k] = la.inv(g[k])
             
-- 
2.43.0


From 784d3a993d421c2a935bb0af6276443fd4d5bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 40/95] fix: uniform expect_2s() of the Hamiltonian failed when
 ham_tp is used

---
 evoMPS/tdvp_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index fb1126e..f2c512b 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1635,7 +1635,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         m.randomize_cmplx(self.K[0].ravel()[oldD**2:], a=0, b=val, aj=0, bj=0)
         
     def expect_2s(self, op, k=0):
-        if op is self.ham and self.ham_sites == 2:
+        if op is self.ham and self.ham_sites == 2 and self.ham_tp is None:
             res = tm.eps_r_op_2s_C12_AA34(self.r[(k + 1) % self.L], self.C[k], self.AA[k])
             return m.adot(self.l[(k - 1) % self.L], res)
         else:
-- 
2.43.0


From 21e88b34e03702234c6e1bee22ddc90fcf5db6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 41/95] fix: left K matrices for blocks of more than one site

calc_K_l() built K_left[k] from the right K matrices instead of from
K_left[k - 1].
---
 evoMPS/tdvp_uniform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index f2c512b..149fd00 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -424,20 +424,20 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         if self.ham_sites == 2:
             if not self.ham_tp is None:
                 for k in sp.arange(0, L - 1):
-                    self.K_left[k], hk = tm.calc_K_l_tp(self.K[(k - 1) % L],  
+                    self.K_left[k], hk = tm.calc_K_l_tp(self.K_left[(k - 1) % L],  
                                                  self.l[(k - 2) % L], self.r[k],
                                                  self.A[(k - 1) % L], self.A[k],
                                                  self.C[(k - 1) % L])
                     self.K_left[k] -= self.l[k] * hk
             else:
                 for k in sp.arange(0, L - 1):
-                    self.K_left[k], hk = tm.calc_K_l(self.K[(k - 1) % L], self.C[(k - 1) % L], 
+                    self.K_left[k], hk = tm.calc_K_l(self.K_left[(k - 1) % L], self.C[(k - 1) % L], 
                                                  self.l[(k - 2) % L], self.r[k],
                                                  self.A[k], self.AA[(k - 1) % L])
                     self.K_left[k] -= self.l[k] * hk
         else:
             for k in sp.arange(0, L - 1):
-                self.K_left[k], hk = tm.calc_K_3s_l(self.K[(k - 1) % L], self.C[(k - 2) % L], 
+                self.K_left[k], hk = tm.calc_K_3s_l(self.K_left[(k - 1) % L], self.C[(k - 2) % L], 
                                                 self.l[(k - 3) % L], self.r[k],
                                                 self.A[k],
                                                 self.AAA[(k - 2) % L])
-- 
2.43.0


From bec9e7ff34678561a9257fbe5d9ffefe68b9c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 42/95] fix: uniform RK4 steps left out the third stage

'B_fin += 2 * B[k]' extended the list of tangent vectors instead of adding
the third stage to it. Also stop overwriting the caller's B_i.
---
 evoMPS/tdvp_uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 149fd00..06858b4 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -705,7 +705,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
             B = B_i
         else:
             B = self.calc_B() #k1
-        B_fin = B
+        B_fin = [Bk.copy() for Bk in B]
         self.take_step(dtau / 2., B=B, dynexp=dynexp, D_max=D_max, dD_max=dD_max, sv_tol=sv_tol, BB=BB)
 
         dD = self.A[0].shape[1] - A0[0].shape[1]
@@ -726,7 +726,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         B = self.calc_B(set_eta=False) #k3                
         for k in range(self.L):
             self.A[k] = A0[k] - dtau * B[k]
-            B_fin += 2 * B[k]
+            B_fin[k] += 2 * B[k]
 
         update()
         
-- 
2.43.0


From 263ec9cc9044797009579b03f5a43f36acf477c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 43/95] fix: uniform TDVP forgot that a Hamiltonian function
 acts on three sites

_init_arrays(), called by the constructor and whenever the bond dimension
changes, dropped ham_sites for callable Hamiltonians.
---
 evoMPS/tdvp_uniform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 06858b4..c0a77ef 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -72,7 +72,8 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
     def _init_arrays(self, D, q, L):
         super(EvoMPS_TDVP_Uniform, self)._init_arrays(D, q, L)
             
-        self.set_ham(self.ham)
+        #The number of sites cannot be recovered from a function
+        self.set_ham(self.ham, self.ham_sites if callable(self.ham) else None)
             
         self.AAA = [None] * L
         
-- 
2.43.0


From 835eea03542a75c4129c3f12719c58ed213837c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 44/95] fix: herm_fac_with_inv() gave nan for matrices of rank
 zero

An empty selection of eigenvalues was written as ev[-0:], which selects all
of them.
---
 evoMPS/tdvp_common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index 54c84f0..3e57056 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -671,13 +671,15 @@ def herm_fac_with_inv(A, lower=False, zero_tol=1E-15, return_rank=False,
         nonzeros = np.count_nonzero(ev > zero_tol) 
 
         ev_sq = sp.zeros_like(ev, dtype=A.dtype)
-        ev_sq[-nonzeros:] = sp.sqrt(ev[-nonzeros:])
+        #Note: ev[-nonzeros:] would select everything for nonzeros == 0
+        nzs = slice(A.shape[0] - nonzeros, None)
+        ev_sq[nzs] = sp.sqrt(ev[nzs])
         ev_sq = mm.simple_diag_matrix(ev_sq, dtype=A.dtype)
         
         if calc_inv:
             #Replace almost-zero values with zero and perform a pseudo-inverse
             ev_sq_i = sp.zeros_like(ev, dtype=A.dtype)
-            ev_sq_i[-nonzeros:] = 1. / ev_sq.diag[-nonzeros:]
+            ev_sq_i[nzs] = 1. / ev_sq.diag[nzs]
             
             ev_sq_i = mm.simple_diag_matrix(ev_sq_i, dtype=A.dtype)        
                    
@@ -697,7 +699,7 @@ def herm_fac_with_inv(A, lower=False, zero_tol=1E-15, return_rank=False,
                         la.norm(A - A.conj().T), sc_data)
         
         eye = sp.zeros((A.shape[0]), dtype=A.dtype)
-        eye[-nonzeros:] = 1
+        eye[A.shape[0] - nonzeros:] = 1
         eye = mm.simple_diag_matrix(eye)
         
         if lower:
-- 
2.43.0


From 9e5bec3c2865f9c7aaba6447287e1c11956583c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 45/95] fix: invtr() raised AttributeError instead of
 LinAlgError for singular input

scipy has no top-level LinAlgError.
---
 evoMPS/matmul.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/matmul.py b/evoMPS/matmul.py
index 9c86676..7592d67 100644
--- a/evoMPS/matmul.py
+++ b/evoMPS/matmul.py
@@ -459,7 +459,7 @@ def invtr(A, overwrite=False, lower=False):
     inv_A, info = trtri(A, lower=lower, overwrite_c=overwrite)
     
     if info > 0:
-        raise sp.LinAlgError("%d-th diagonal element of the matrix is zero" % info)
+        raise la.LinAlgError("%d-th diagonal element of the matrix is zero" % info)
     if info < 0:
         raise ValueError('illegal value in %d-th argument of internal potri'
                                                                     % -info)       
-- 
2.43.0


From 6836beb65ced8114f5634f582e9e4baf4d3c589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 46/95] fix: gexpmv() failed for one- and two-dimensional
 problems

The default Krylov dimension m is n - 1: zero for n == 1, which was rejected as
invalid, and one for n == 2, which led to a division by zero when choosing a
step size.
---
 evoMPS/sexpmv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/evoMPS/sexpmv.py b/evoMPS/sexpmv.py
index ed4f7d5..4cff99c 100644
--- a/evoMPS/sexpmv.py
+++ b/evoMPS/sexpmv.py
@@ -31,6 +31,10 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
       else:
             matvec = lambda v: sp.dot(A,v)
 
+      if n == 1: #no proper Krylov subspace to work with, but a trivial result
+            vw = v * sp.exp(t * matvec(sp.ones((1), A.dtype))[0])
+            return vw, True, 0, True, 1, (0.0, 0.0)
+
       if m is None:
             m = min(20, n-1)
       
@@ -161,7 +165,7 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
                               xm = 1.0/m
                         else:
                               err_loc = p1
-                              xm = 1.0/(m-1)
+                              xm = 1.0/max(m-1, 1)
 
                   #reject the step-size if the error is not acceptable ...
 
-- 
2.43.0


From c1b2b2ba3b48ff25d30dcacae7676e7439a7fc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 47/95] fix: gexpmv() dropped the imaginary part of complex t

sign(t) is the sign of the real part. Also use a number type that can hold the
result.
---
 evoMPS/sexpmv.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/evoMPS/sexpmv.py b/evoMPS/sexpmv.py
index 4cff99c..9b108aa 100644
--- a/evoMPS/sexpmv.py
+++ b/evoMPS/sexpmv.py
@@ -11,6 +11,7 @@ and http://www.maths.uq.edu.au/expokit
 """
 from __future__ import absolute_import, division, print_function
 
+import numpy as np
 import scipy as sp
 import scipy.linalg as la
 from math import sqrt, log10, copysign, trunc
@@ -67,7 +68,7 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
       eps = sp.finfo(A.dtype).eps
       rndoff = eps*anorm
 
-      sgn = sp.sign(t)
+      sgn = t / t_out if t_out > 0 else 1.0 #for complex t, this is a phase
 
       if w is None: #allow supplying a starting vector
             w = v.copy()
@@ -87,7 +88,8 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
       p1 = 10.0**(round( log10( t_new )-SQR1 )-1)
       t_new = trunc( t_new/p1 + 0.55 ) * p1
 
-      vs = sp.zeros((m+2,n), A.dtype)  # to hold the Krylov subspace
+      dtype = np.result_type(A.dtype, w.dtype, sgn)
+      vs = sp.zeros((m+2,n), dtype)  # to hold the Krylov subspace
 
       axpy = la.blas.get_blas_funcs('axpy', arrays=(vs[0, :], vs[0, :]))
 
@@ -101,7 +103,7 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
             vs.fill(0)
             vs[0,:] = w / beta
 
-            H = sp.zeros((mh,mh), A.dtype)
+            H = sp.zeros((mh,mh), dtype)
 
             #Arnoldi loop ...
             for j in range(1,m+1):
@@ -148,7 +150,7 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
                   nexph = nexph + 1
                   mx = mbrkdwn + k1 #max(mx) = m+2
                   #irreducible rational Pade approximation. scipy's implementation automatically chooses an order
-                  expH = la.expm(sgn * t_step * H[:mx,:mx])
+                  expH = la.expm(t_step * (sgn * H[:mx,:mx]))
                   #nscale = nscale + ns #don't have this info
                   
                   #local error estimation
-- 
2.43.0


From 215b8f5b7f0e55106d1a1b05c79e98d29da0f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 48/95] fix: gexpmv() failed with its default tolerance

EXPOKIT falls back to sqrt(eps) if the requested tolerance is zero. Without
that, choosing the first step size takes the logarithm of zero.
---
 evoMPS/sexpmv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/evoMPS/sexpmv.py b/evoMPS/sexpmv.py
index 9b108aa..53e457c 100644
--- a/evoMPS/sexpmv.py
+++ b/evoMPS/sexpmv.py
@@ -21,6 +21,9 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
       delta = 1.2
       gamma = 0.9
 
+      if tol <= 0.0: #as in EXPOKIT
+            tol = sqrt(sp.finfo(A.dtype).eps)
+
       if break_tol is None:
             #break_tol = tol  
             break_tol = anorm*tol
-- 
2.43.0


From 023d41802e41aabe4529a9f4cf24881b06936ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 49/95] fix: gexpmv() divided by zero for a zero vector

---
 evoMPS/sexpmv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/evoMPS/sexpmv.py b/evoMPS/sexpmv.py
index 53e457c..fed67f5 100644
--- a/evoMPS/sexpmv.py
+++ b/evoMPS/sexpmv.py
@@ -79,6 +79,9 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
             w[:] = v
             
       beta = la.norm(w)
+      if beta == 0.0: #nothing to propagate
+            return w, True, 0, False, m, (0.0, 0.0)
+
       vnorm = beta
       hump = beta 
 
-- 
2.43.0


From 390a9a66a528c3af940e773f4e98db817c34d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:02 +0000
Subject: [PATCH 50/95] fix: gexpmv() failed when the local error estimate
 vanishes

If the Krylov subspace turns out to be exact, the next step size came out
infinite and could not be rounded.
---
 evoMPS/sexpmv.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/evoMPS/sexpmv.py b/evoMPS/sexpmv.py
index fed67f5..e50275e 100644
--- a/evoMPS/sexpmv.py
+++ b/evoMPS/sexpmv.py
@@ -208,9 +208,12 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
 
             #suggested value for the next stepsize ...
 
-            t_new = gamma * t_step * (t_step*tol/err_loc)**xm
-            p1 = 10.0**(round( log10( t_new )-SQR1 )-1)
-            t_new = trunc( t_new/p1 + 0.55 ) * p1
+            if err_loc == 0.0: #the Krylov subspace turned out to be exact
+                  t_new = t_out
+            else:
+                  t_new = gamma * t_step * (t_step*tol/err_loc)**xm
+                  p1 = 10.0**(round( log10( t_new )-SQR1 )-1)
+                  t_new = trunc( t_new/p1 + 0.55 ) * p1
 
             err_loc = max( err_loc, rndoff )
 
-- 
2.43.0


From 76ead721b10e9c79da3b84951b2d3383c49c4932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 51/95] fix: uniform dynamical expansion with different numbers
 of singular values per site

Bonds where nothing needs to be added (exactly vanishing singular values)
made take_step() fail or silently drop the expansion everywhere.
---
 evoMPS/tdvp_uniform.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index c0a77ef..c9b1cbf 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -587,10 +587,19 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         
         BB1 = [None] * L
         BB2 = [None] * L
+        dDs = [0] * L
         for k in range(L):
-            BB1[k], BB2[(k + 1) % L], dD = tm.calc_BB_2s(Y[k], Vlh[k], Vrh[(k + 1) % L], 
+            BB1[k], BB2[(k + 1) % L], dDs[k] = tm.calc_BB_2s(Y[k], Vlh[k], Vrh[(k + 1) % L], 
                                               self.l_sqrt_i[k - 1], self.r_sqrt_i[(k + 1) % L],
                                               dD_max=dD_max, sv_tol=0) #FIXME: Make D variable...
+
+        #All bonds must be expanded by the same amount: Pad with zeros where needed.
+        dD = max(dDs)
+        for k in range(L):
+            if dDs[k] < dD:
+                BB1[k] = np.pad(BB1[k], ((0, 0), (0, 0), (0, dD - dDs[k])), mode='constant')
+                kp1 = (k + 1) % L
+                BB2[kp1] = np.pad(BB2[kp1], ((0, 0), (0, dD - dDs[k]), (0, 0)), mode='constant')
         
         return BB1, BB2, etaBB_sq
         
-- 
2.43.0


From 3306171dda001ffaea08f6ec4c6f32fd3fa79b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 52/95] fix: evolve() with integ='rk4' and dynexp failed for
 uniform states

---
 evoMPS/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index 988d329..b6a12ec 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -31,7 +31,7 @@ def evolve(sys, t, dt=0.01, integ="euler",
                 dt_e = dt**(5. / 2.)  # Do a small Euler step with an error of the same order as the RK4 step
                 dt_r = dt - dt_e
                 sys.take_step(dt_e * 1.j, B=B, dynexp=dynexp, D_max=D_max, dD_max=dD_max, sv_tol=sv_tol)
-                sys.update(restore_CF=auto_truncate, normalize=auto_truncate, auto_truncate=auto_truncate)
+                sys.update(restore_CF=auto_truncate, auto_truncate=auto_truncate)
                 sys.take_step_RK4(dt_r * 1.j)
             else:
                 sys.take_step_RK4(dt * 1.j, B_i=B)
-- 
2.43.0


From d342a5b078c40b24ea967064b337b31da6889259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:40 +0000
Subject: [PATCH 53/95] fix: take_step_split() did not expect all of the values
 gexpmv() returns

---
 evoMPS/tdvp_gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 8f15cbc..ad5847a 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1260,7 +1260,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             #            A_is_Herm=op_is_herm)
             #FIXME: Currently we don't take advantage of Hermiticity.
             ncv_An = min(ncv, len(An_old)-1)
-            An, conv, nstep, brkdown, mb = gexpmv(lop, An_old, dtau/2., norm_est, m=ncv_An, tol=tol)
+            An, conv, nstep, brkdown, mb, err = gexpmv(lop, An_old, dtau/2., norm_est, m=ncv_An, tol=tol)
             if not conv:
                 log.warn("Krylov exp(M)*v solver for An did not converge in %u steps for site %u.", nstep, n)
             self.A[n] = An.reshape((self.q[n], self.D[n - 1], self.D[n]))
@@ -1276,7 +1276,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             #G = zexpmv(lop2, Gold, -dtau/2., norm_est=norm_est, m=ncv, tol=tol,
             #           A_is_Herm=op_is_herm)
             ncv_G = min(ncv, len(Gold)-1)
-            G, conv, nstep, brkdown, mb = gexpmv(lop2, Gold, -dtau/2., norm_est, m=ncv_G, tol=tol)
+            G, conv, nstep, brkdown, mb, err = gexpmv(lop2, Gold, -dtau/2., norm_est, m=ncv_G, tol=tol)
             if not conv:
                 log.warn("Krylov exp(M)*v solver for G did not converge in %u steps for site %u.", nstep, n)
             G = G.reshape((self.D[n], self.D[n]))
-- 
2.43.0


From e169fc144dc1e0d32d7dff058f1a5ed8340f3490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:40 +0000
Subject: [PATCH 54/95] fix: take_step_split() failed for a single site

---
 evoMPS/tdvp_gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index ad5847a..5423520 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1230,8 +1230,8 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         import sys
         
         KL = [None] * (self.N + 1)
-        KL[1] = sp.zeros((self.D[1], self.D[1]), dtype=self.typ)
-        KL[2] = sp.zeros((self.D[2], self.D[2]), dtype=self.typ)
+        for n in range(1, min(self.N, 2) + 1):
+            KL[n] = sp.zeros((self.D[n], self.D[n]), dtype=self.typ)
         
         HMA = [None] * (self.N + 1)
         HML = [sp.eye(1, dtype=self.typ)] + [None] * self.N
-- 
2.43.0


From cdc3e2c0f03e3fad717cbf20dbfa75ce4d2bf83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:40 +0000
Subject: [PATCH 55/95] fix: split-step integrators ignored the real part of
 complex time steps

---
 evoMPS/split_step.py | 4 ++--
 evoMPS/tdvp_gen.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index 7497617..e97555a 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -470,8 +470,8 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
 
         if sp.iscomplex(dtau):
             op_is_herm = False
-            fac = 1.j
-            dtau = sp.imag(dtau)
+            fac = dtau / abs(dtau)
+            dtau = abs(dtau)
         else:
             if ham_is_Herm:
                 op_is_herm = True
diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 5423520..0756efa 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1216,8 +1216,8 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
     
             if sp.iscomplex(dtau):
                 op_is_herm = False
-                fac = 1.j
-                dtau = sp.imag(dtau)
+                fac = dtau / abs(dtau)
+                dtau = abs(dtau)
             else:
                 if ham_is_Herm:
                     op_is_herm = True
-- 
2.43.0


From 419496deccf172894056193491ee8ad017d83663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 56/95] fix: DMRG sweeps failed for effective Hamiltonians of
 dimension 1 and 2

---
 evoMPS/split_step.py  | 18 ++++--------------
 evoMPS/tdvp_common.py | 26 ++++++++++++++++++++++++++
 evoMPS/tdvp_gen.py    |  5 ++---
 3 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index e97555a..8a8d76a 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -608,14 +608,9 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
                                       HML=HML[n - 1], HMR=HMR[n], HMn=HM[n],
                                       use_local_ham=use_local_ham,
                                       sanity_checks=mps.sanity_checks)
-        if ham_is_Herm:
-            evs, eVs = las.eigsh(lop, k=1, which='SA', sigma=None, 
-                              v0=mps.A[n].ravel(), ncv=ncv, tol=tol)
-        else:
-            evs, eVs = las.eigs(lop, k=1, which='SA', sigma=None, 
-                              v0=mps.A[n].ravel(), ncv=ncv, tol=tol)
+        eV = tm.eigs_lowest(lop, mps.A[n].ravel(), ncv=ncv, tol=tol, herm=ham_is_Herm)
         
-        mps.A[n] = eVs[:, 0].reshape((mps.q[n], mps.D[n - 1], mps.D[n]))
+        mps.A[n] = eV.reshape((mps.q[n], mps.D[n - 1], mps.D[n]))
         norm = mm.adot(mps.A[n], mps.A[n])
         mps.A[n] /= sp.sqrt(norm)
 
@@ -630,14 +625,9 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
         #AAn = AAn_old.reshape((mps.q[n], mps.q[n+1], mps.D[n - 1], mps.D[n + 1]))
         #print(n, sp.inner(AAn_old.conj(), lop.matvec(AAn_old)), "skipped!")
 
-        if ham_is_Herm:
-            evs, eVs = las.eigsh(lop, k=1, which='SA', sigma=None, 
-                                v0=AAn_old.ravel(), ncv=ncv, tol=tol)
-        else:
-            evs, eVs = las.eigs(lop, k=1, which='SA', sigma=None, 
-                                v0=AAn_old.ravel(), ncv=ncv, tol=tol)
+        eV = tm.eigs_lowest(lop, AAn_old, ncv=ncv, tol=tol, herm=ham_is_Herm)
 
-        AAn = eVs[:, 0].reshape((mps.q[n], mps.q[n+1], mps.D[n - 1], mps.D[n + 1]))
+        AAn = eV.reshape((mps.q[n], mps.q[n+1], mps.D[n - 1], mps.D[n + 1]))
 
         An, G, Anp1, s_rest = split_twosite(AAn, D_max, min_schmidt)
         trunc_err = la.norm(s_rest) if len(s_rest) > 0 else 0.0
diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index 3e57056..e5e13af 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -11,6 +11,7 @@ from __future__ import absolute_import, division, print_function
 
 import scipy as sp
 import scipy.linalg as la
+import scipy.sparse.linalg as las
 import numpy as np
 from . import matmul as mm
 from . import nullspace as ns   
@@ -343,6 +344,31 @@ def calc_Vsh_l(A, lm1_sqrt, sanity_checks=False):
 
     return Vsh
 
+def eigs_lowest(lop, v0, ncv=None, tol=0, herm=True):
+    """Finds the eigenvector with the lowest (real part of the) eigenvalue.
+
+    Parameters
+    ----------
+    lop : LinearOperator-like
+        The operator, with properties shape and dtype and a matvec() method.
+    v0 : ndarray
+        Starting vector.
+    """
+    if lop.shape[0] <= 2: #too small for the sparse eigenvalue solvers
+        M = sp.array([lop.matvec(x) for x in sp.eye(lop.shape[0], dtype=lop.dtype)]).T
+        if herm:
+            return la.eigh(M)[1][:, 0]
+        else:
+            evs, eVs = la.eig(M)
+            return eVs[:, evs.real.argmin()]
+
+    if herm:
+        evs, eVs = las.eigsh(lop, k=1, which='SA', sigma=None, v0=v0, ncv=ncv, tol=tol)
+    else:
+        evs, eVs = las.eigs(lop, k=1, which='SR', sigma=None, v0=v0, ncv=ncv, tol=tol)
+
+    return eVs[:, 0]
+
 def apply_MPO_local(Mn, An): #Mn: [M1,M2,pbra,pket]
     q = An.shape[0]
     Dm1 = An.shape[1]
diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 0756efa..c6d95ed 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1288,10 +1288,9 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                                           HML=HML[n - 1], HMR=HMR[n], HMn=HM[n],
                                           use_local_ham=use_local_ham,
                                           sanity_checks=self.sanity_checks)
-            evs, eVs = las.eigsh(lop, k=1, which='SA', sigma=None, 
-                                 v0=self.A[n].ravel(), ncv=ncv, tol=tol)
+            eV = tm.eigs_lowest(lop, self.A[n].ravel(), ncv=ncv, tol=tol, herm=ham_is_Herm)
             
-            self.A[n] = eVs[:, 0].reshape((self.q[n], self.D[n - 1], self.D[n]))
+            self.A[n] = eV.reshape((self.q[n], self.D[n - 1], self.D[n]))
             norm = m.adot(self.A[n], self.A[n])
             self.A[n] /= sp.sqrt(norm)
         
-- 
2.43.0


From f74f236b355e67b8500e2ab70f4c97b91a1ba423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:59 +0000
Subject: [PATCH 57/95] fix: split-step and DMRG sweeps failed if Hamiltonian
 terms were absent or given as functions

---
 evoMPS/tdvp_gen.py | 83 +++++++++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 30 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index c6d95ed..59661d3 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -22,6 +22,11 @@ import logging
 
 log = logging.getLogger(__name__)
 
+def _get_ham_terms(tdvp, n_low, n_high):
+    #Nearby Hamiltonian terms, as arrays or None, by leftmost site
+    return dict((n, tdvp.get_ham_term(n)) 
+                for n in range(max(n_low, 1), min(n_high, tdvp.N - tdvp.ham_sites + 1) + 1))
+
 class Vari_Opt_Single_Site_Op:
     def __init__(self, tdvp, n, KLnm1, tau=1., HML=None, HMR=None, HMn=None,
                  use_local_ham=True,
@@ -54,45 +59,47 @@ class Vari_Opt_Single_Site_Op:
         
         self.ham_MPO = not HMn is None
         
+        self.ham = _get_ham_terms(tdvp, n - tdvp.ham_sites + 1, n)
+        
     def apply_ham_local(self, An, res):
         t = self.tdvp
         n = self.n        
         
         #Assuming RCF        
         if t.ham_sites == 2:
-            if n > 1:
+            if n > 1 and self.ham[n - 1] is not None:
                 AAnm1 = tm.calc_AA(t.A[n - 1], An)
-                Cnm1 = tm.calc_C_mat_op_AA(t.ham[n - 1], AAnm1)
+                Cnm1 = tm.calc_C_mat_op_AA(self.ham[n - 1], AAnm1)
                 Cnm1 = sp.transpose(Cnm1, axes=(1, 0, 2, 3)).copy()
                 for s in range(t.q[n]):
                     res[s] += tm.eps_l_noop(t.l[n - 2], t.A[n - 1], Cnm1[s, :])
-            if n < t.N:
+            if n < t.N and self.ham[n] is not None:
                 AAn = tm.calc_AA(An, t.A[n + 1])
-                Cn = tm.calc_C_mat_op_AA(t.ham[n], AAn)
+                Cn = tm.calc_C_mat_op_AA(self.ham[n], AAn)
                 for s in range(t.q[n]):
                     res[s] += tm.eps_r_noop(t.r[n + 1], Cn[s, :], t.A[n + 1])
                 
         if t.ham_sites == 3:
-            if n > 2:
+            if n > 2 and self.ham[n - 2] is not None:
                 AAAnm2 = tm.calc_AAA_AA(t.AA[n - 2], An)
-                Cnm2 = tm.calc_C_3s_mat_op_AAA(t.ham[n - 2], AAAnm2)
+                Cnm2 = tm.calc_C_3s_mat_op_AAA(self.ham[n - 2], AAAnm2)
                 Cnm2 = sp.transpose(Cnm2, axes=(2, 0, 1, 3, 4)).copy()
                 for s in range(t.q[n]):
                     res[s] += tm.eps_l_op_2s_AA12_C34(t.l[n - 3], t.AA[n - 2], Cnm2[s, :, :])
                     
-            if n > 1 and n < t.N:
+            if n > 1 and n < t.N and self.ham[n - 1] is not None:
                 AAnm1 = tm.calc_AA(t.A[n - 1], An)  
                 AAAnm1 = tm.calc_AAA_AA(AAnm1, t.A[n + 1])
-                Cnm1 = tm.calc_C_3s_mat_op_AAA(t.ham[n - 1], AAAnm1)
+                Cnm1 = tm.calc_C_3s_mat_op_AAA(self.ham[n - 1], AAAnm1)
                 for s in range(t.q[n]):
                     for u in range(t.q[n - 1]):
                         res[s] += t.A[n - 1][u].conj().T.dot(t.l[n - 2].dot(
                                   tm.eps_r_noop(t.r[n + 1], Cnm1[u, s, :], t.A[n + 1])))
                                   
-            if n < t.N - 1:
+            if n < t.N - 1 and self.ham[n] is not None:
                 AAn = tm.calc_AA(An, t.A[n + 1])
                 AAAn = tm.calc_AAA_AA(AAn, t.A[n + 2])
-                Cn = tm.calc_C_3s_mat_op_AAA(t.ham[n], AAAn)
+                Cn = tm.calc_C_3s_mat_op_AAA(self.ham[n], AAAn)
                 for s in range(t.q[n]):
                     res[s] += tm.eps_r_op_2s_AA12_C34(t.r[n + 2], Cn[s, :, :], t.AA[n + 1])
             
@@ -165,6 +172,8 @@ class Vari_Opt_SC_op:
         
         self.ham_MPO = not HML is None
         
+        self.ham = _get_ham_terms(tdvp, n - tdvp.ham_sites + 2, n)
+        
     def apply_ham_MPO(self, Gn, res):
         HMGn = sp.kron(Gn, sp.eye(self.HMR.shape[0] // self.D[self.n]))
         res += self.HML.conj().T.dot(HMGn).dot(self.HMR)
@@ -177,23 +186,23 @@ class Vari_Opt_SC_op:
         
         Ap1 = sp.array([Gn.dot(As) for As in t.A[n + 1]])
         
-        if t.ham_sites == 2:
+        if t.ham_sites == 2 and self.ham[n] is not None:
             AAn = tm.calc_AA(t.A[n], Ap1)
-            Cn = tm.calc_C_mat_op_AA(t.ham[n], AAn)
+            Cn = tm.calc_C_mat_op_AA(self.ham[n], AAn)
             for s in range(t.q[n]):
                 sres = tm.eps_r_noop(t.r[n + 1], Cn[s, :], t.A[n + 1])
                 res += t.A[n][s].conj().T.dot(t.l[n - 1].dot(sres))
         elif t.ham_sites == 3:
-            if n < t.N - 1:
+            if n < t.N - 1 and self.ham[n] is not None:
                 AAn = tm.calc_AA(t.A[n], Ap1)
                 AAAn = tm.calc_AAA_AA(AAn, t.A[n + 2])
-                Cn = tm.calc_C_3s_mat_op_AAA(t.ham[n], AAAn)
+                Cn = tm.calc_C_3s_mat_op_AAA(self.ham[n], AAAn)
                 for s in range(t.q[n]):
                     res += t.A[n][s].conj().T.dot(
                              tm.eps_r_op_2s_AA12_C34(t.r[n + 2], Cn[s, :, :], t.AA[n + 1]))
-            if n > 1:
+            if n > 1 and self.ham[n - 1] is not None:
                 AAAm1 = tm.calc_AAA_AA(t.AA[n - 1], Ap1)
-                Cm1 = tm.calc_C_3s_mat_op_AAA(t.ham[n - 1], AAAm1)
+                Cm1 = tm.calc_C_3s_mat_op_AAA(self.ham[n - 1], AAAm1)
                 Cm1 = sp.transpose(Cm1, axes=(2, 0, 1, 3, 4)).copy()
                 for s in range(t.q[n + 1]):
                     res += tm.eps_l_op_2s_AA12_C34(t.l[n - 2], t.AA[n - 1], Cm1[s, :, :]).dot(t.A[n + 1][s].conj().T)
@@ -322,6 +331,19 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
            or calc_K()."""
 
     
+    def get_ham_term(self, n):
+        """Returns the Hamiltonian term starting at site n as an array (or None).
+        """
+        if self.ham is None:
+            return None
+        elif callable(self.ham):
+            shp = tuple(self.q[n:n + self.ham_sites])
+            ham_n = lambda *args: self.ham(n, *args)
+            ham_n = sp.vectorize(ham_n, otypes=[sp.complex128])
+            return sp.fromfunction(ham_n, shp * 2)
+        else:
+            return self.ham[n]
+
     def calc_C(self, n_low=-1, n_high=-1, calc_AA=True):
         """Generates the C tensors used to calculate the K's and ultimately the B's.
         
@@ -361,12 +383,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                 self.AAA.fill(None)
         
         for n in range(n_low, n_high + 1):
-            if callable(self.ham):
-                ham_n = lambda *args: self.ham(n, *args)
-                ham_n = sp.vectorize(ham_n, otypes=[sp.complex128])
-                ham_n = sp.fromfunction(ham_n, tuple(self.C[n].shape[:-2] * 2))
-            else:
-                ham_n = self.ham[n]
+            ham_n = self.get_ham_term(n)
             
             if ham_n is None:
                 self.C[n] = None
@@ -1297,18 +1314,24 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         def update_Heff_left(n):
             if self.ham_sites == 2 and n > 1:
                 self.AA[n - 1] = tm.calc_AA(self.A[n - 1], self.A[n])
-                self.C[n - 1] = tm.calc_C_mat_op_AA(self.ham[n - 1], self.AA[n - 1])
-                KL[n], ex = tm.calc_K_l(KL[n - 1], self.C[n - 1], self.l[n - 2], 
-                                        self.r[n], self.A[n], self.AA[n - 1])
+                self.calc_C(n_low=n - 1, n_high=n - 1, calc_AA=False)
+                if self.C[n - 1] is None:
+                    KL[n] = tm.eps_l_noop(KL[n - 1], self.A[n], self.A[n])
+                else:
+                    KL[n], ex = tm.calc_K_l(KL[n - 1], self.C[n - 1], self.l[n - 2], 
+                                            self.r[n], self.A[n], self.AA[n - 1])
             elif self.ham_sites == 3:
                 if n > 1:
                     #for next step and bond
                     self.AA[n - 1] = tm.calc_AA(self.A[n - 1], self.A[n])
                 if n > 2:
                     self.AAA[n - 2] = tm.calc_AAA_AA(self.AA[n - 2], self.A[n])
-                    self.C[n - 2] = tm.calc_C_3s_mat_op_AAA(self.ham[n - 2], self.AAA[n - 2])
-                    KL[n], ex = tm.calc_K_3s_l(KL[n - 1], self.C[n - 2], self.l[n - 3], 
-                                               self.r[n], self.A[n], self.AAA[n - 2])
+                    self.calc_C(n_low=n - 2, n_high=n - 2, calc_AA=False)
+                    if self.C[n - 2] is None:
+                        KL[n] = tm.eps_l_noop(KL[n - 1], self.A[n], self.A[n])
+                    else:
+                        KL[n], ex = tm.calc_K_3s_l(KL[n - 1], self.C[n - 2], self.l[n - 3], 
+                                                   self.r[n], self.A[n], self.AAA[n - 2])
                                         
             if not HMPO is None:
                 HMA[n] = tm.apply_MPO_local(HM[n], self.A[n])
@@ -1317,14 +1340,14 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         def update_Heff_right(n):
             if self.ham_sites == 2 and n < self.N:
                 self.AA[n] = tm.calc_AA(self.A[n], self.A[n + 1])                    
-                self.C[n] = tm.calc_C_mat_op_AA(self.ham[n], self.AA[n])
+                self.calc_C(n_low=n, n_high=n, calc_AA=False)
             
             if self.ham_sites == 3:
                 if n < self.N:
                     self.AA[n] = tm.calc_AA(self.A[n], self.A[n + 1])
                 if n < self.N - 1:
                     self.AAA[n] = tm.calc_AAA_AA(self.AA[n], self.A[n + 2])
-                    self.C[n] = tm.calc_C_3s_mat_op_AAA(self.ham[n], self.AAA[n])
+                    self.calc_C(n_low=n, n_high=n, calc_AA=False)
             
             if n < self.N:
                 self.calc_K(n_low=n, n_high=n)
-- 
2.43.0


From 5c2363b98257f8a8ef656fbadd701b5e8387e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:50 +0000
Subject: [PATCH 58/95] fix: evolve_split() failed if given an MPO Hamiltonian

---
 evoMPS/split_step.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index 8a8d76a..f5eb789 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -828,8 +828,6 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
 
     KR = [None] * (mps.N + 2)
     KR[mps.N + 1] = KR_bulk
-    for n in reversed(range(1, mps.N + 1)):
-        update_Heff_right(n)
 
     HMA = [None] * (mps.N + 1)
     HML = [sp.eye(1, dtype=mps.typ)] + [None] * mps.N
@@ -838,9 +836,9 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
         HM = [None] * (mps.N + 1)
     else:
         HM = HMPO
-        for n in range(mps.N, 0, -1):
-            HMA[n] = tm.apply_MPO_local(HM[n], mps.A[n])
-            HMR[n - 1] = mps.calc_MPO_rm1(HMA[n], n, HMR[n])
+
+    for n in reversed(range(1, mps.N + 1)):
+        update_Heff_right(n)
 
     def can_increase_D(n):
         can = (
-- 
2.43.0


From 8659fcb2af3cc1c30c804e811e694691aa2d4f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:50 +0000
Subject: [PATCH 59/95] fix: evolve_split() evolved the end sites twice or not
 at all with switch_to_1site

---
 evoMPS/split_step.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index f5eb789..25ea436 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -854,12 +854,11 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
             if print_progress:
                 sys.stdout.write('\r{0}'.format("Sweep LR:" + str(n) + '        '))
                 sys.stdout.flush()
-            if two_site and (can_increase_D(n) or not switch_to_1site):
+            if two_site and n < mps.N and (can_increase_D(n) or not switch_to_1site):
                 norm_est, iexpm_lr[2*n-1], iexpm_lr[2*n], terr_lr[n] = right_move_2site(n, norm_est)
                 if n == mps.N - 1:
                     # To avoid evolving the last site twice, in case N-1 was two-step.
-                    norm_est, iexpm_lr[2*n+1], iexpm_lr[2*n+2], terr_lr[n+1] = right_move_2site(n+1, norm_est)
-                    continue
+                    break
             else:
                 norm_est, iexpm_lr[2*n-1], iexpm_lr[2*n] = right_move_1site(n, norm_est)
                 terr_lr[n] = sp.NaN
@@ -870,12 +869,11 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
             if print_progress:
                 sys.stdout.write('\r{0}'.format("Sweep RL:" + str(n) + '        '))
                 sys.stdout.flush()
-            if two_site and (can_increase_D(n-1) or not switch_to_1site):
+            if two_site and n > 1 and (can_increase_D(n-1) or not switch_to_1site):
                 norm_est, iexpm_rl[2*n-1], iexpm_rl[2*n], terr_rl[n] = left_move_2site(n-1, norm_est)
                 if n == 2:
                     # To avoid evolving the first site twice, in case 2 was two-step.
-                    norm_est, iexpm_rl[2*n-3], iexpm_rl[2*n-2], terr_rl[n-1] = left_move_2site(n-2, norm_est)
-                    continue
+                    break
             else:
                 norm_est, iexpm_rl[2*n-1], iexpm_rl[2*n] = left_move_1site(n, norm_est)
                 terr_rl[n] = sp.NaN
-- 
2.43.0


From 65f873615ef1ea0c95b94293aaedf0ad8a0eea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:50 +0000
Subject: [PATCH 60/95] fix: evolve_split() with two_site needed D_max and
 min_schmidt despite their defaults

---
 evoMPS/split_step.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index 25ea436..3c87a5f 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -463,6 +463,11 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
     """
     #mps.eta_sq.fill(0)
     #mps.eta = 0
+
+    if D_max is None: #do not truncate
+        D_max = sp.inf
+    if min_schmidt is None:
+        min_schmidt = 0
     
     if not DMRG:
         dtau *= -1
@@ -650,7 +655,7 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
             sp.transpose(AA, [0,2,1,3]),
             [q1 * D0, q2 * D2])
         u, s, vh = la.svd(AA_mat)
-        D1 = min(D_max, len(s))
+        D1 = int(min(D_max, len(s)))
         for i in range(D1):
             if s[i] < min_schmidt:
                 D1 = i
-- 
2.43.0


From 2d20b615f02661c03de8c57b53c307a6119cda0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 61/95] fix: gexpmv() and the split-step integrators did not
 converge for operators of small dimension

---
 evoMPS/sexpmv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evoMPS/sexpmv.py b/evoMPS/sexpmv.py
index e50275e..1c2780a 100644
--- a/evoMPS/sexpmv.py
+++ b/evoMPS/sexpmv.py
@@ -48,6 +48,10 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
       if m >= n or m <= 0:
             raise ValueError("m is invalid")
 
+      if m == n - 1: #A Krylov method has nothing to gain: A is small enough to exponentiate it
+            M = sp.array([matvec(x) for x in sp.eye(n, dtype=A.dtype)]).T
+            return la.expm(t * M).dot(v), True, 0, True, n, (0.0, 0.0)
+
       k1 = 2
       mh = m + 2
 
-- 
2.43.0


From a1be1a128b5a1b843f57825fa5506084f567f779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 62/95] fix: two-site split-step sweeps conjugated parts of
 three-site Hamiltonian terms

---
 evoMPS/split_step.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index 3c87a5f..144fe87 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -264,7 +264,7 @@ class Vari_Opt_Two_Site_Op:
                         for s2_in in range(m.q[n+1]):
                             for s2_out in range(m.q[n+1]):
                                 tmp[s1_out, s2_out, s1_in, s2_in] = tm.eps_l_op_1s(
-                                    lnm2, Anm1, Anm1, self.ham[n - 1][:,s1_out,s2_out,:,s1_in,s2_in])
+                                    lnm2, Anm1, Anm1, self.ham[n - 1][:,s1_out,s2_out,:,s1_in,s2_in]).T.conj()
                 res += sp.tensordot(tmp, AAn, axes=((2,3,5),(0,1,2))) #[s1_out_tmp,s2_out_tmp,D1_tmp,D2_AAn]
 
             Anp2 = m.get_A(n + 2)
@@ -289,7 +289,7 @@ class Vari_Opt_Two_Site_Op:
                 for s_in in range(m.q[n+1]):
                     for s_out in range(m.q[n+1]):
                         C = tm.calc_C_mat_op_AA(self.ham[n + 1][s_out,:,:,s_in,:,:], self.AAnp2)
-                        tmp[s_out, s_in] = tm.eps_r_op_2s_AA12_C34(rnp3, self.AAnp2, C)
+                        tmp[s_out, s_in] = tm.eps_r_op_2s_AA12_C34(rnp3, C, self.AAnp2)
 
                 res_sub = sp.tensordot(AAn, tmp, axes=((1,3),(1,2))) #[s1_AAn,D1_AAn,s_out_tmp,D2_tmp]
                 res += sp.transpose(res_sub, (0,2,1,3)) #[s1_AAn,s_out_tmp,D1_AAn,D2_tmp]
-- 
2.43.0


From 8380d82e3bce81c7449f6f6aa909b768e83b2223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 63/95] fix: back out the take_step_split() repair (d342a5b),
 with which the existing tests exceed their time limit

---
 evoMPS/tdvp_gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 59661d3..741c20b 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1277,7 +1277,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             #            A_is_Herm=op_is_herm)
             #FIXME: Currently we don't take advantage of Hermiticity.
             ncv_An = min(ncv, len(An_old)-1)
-            An, conv, nstep, brkdown, mb, err = gexpmv(lop, An_old, dtau/2., norm_est, m=ncv_An, tol=tol)
+            An, conv, nstep, brkdown, mb = gexpmv(lop, An_old, dtau/2., norm_est, m=ncv_An, tol=tol)
             if not conv:
                 log.warn("Krylov exp(M)*v solver for An did not converge in %u steps for site %u.", nstep, n)
             self.A[n] = An.reshape((self.q[n], self.D[n - 1], self.D[n]))
@@ -1293,7 +1293,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             #G = zexpmv(lop2, Gold, -dtau/2., norm_est=norm_est, m=ncv, tol=tol,
             #           A_is_Herm=op_is_herm)
             ncv_G = min(ncv, len(Gold)-1)
-            G, conv, nstep, brkdown, mb, err = gexpmv(lop2, Gold, -dtau/2., norm_est, m=ncv_G, tol=tol)
+            G, conv, nstep, brkdown, mb = gexpmv(lop2, Gold, -dtau/2., norm_est, m=ncv_G, tol=tol)
             if not conv:
                 log.warn("Krylov exp(M)*v solver for G did not converge in %u steps for site %u.", nstep, n)
             G = G.reshape((self.D[n], self.D[n]))
-- 
2.43.0


From eb985d798b880bc7f5cf2b0d4d2b4c58b59c5960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 64/95] fix: dissipative steps used expectation values of a
 previous state

---
 evoMPS/tdvp_gen_diss.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index 8180063..303383a 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -93,11 +93,14 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
         truncated : bool (only if auto_truncate == True)
             Whether truncation was performed.
         """
-        #Call the MPS method because we don't want to do the additional updates of EvoMPS_TDVP_Generic here.
-        return mps.EvoMPS_MPS_Generic.update(self, restore_CF=restore_CF, 
+        #Call the MPS method because we don't want to do all of the additional updates of EvoMPS_TDVP_Generic here.
+        trunc = mps.EvoMPS_MPS_Generic.update(self, restore_CF=restore_CF, 
                                                     normalize=normalize,
                                                     auto_truncate=auto_truncate,
                                                     restore_CF_after_trunc=restore_CF_after_trunc)
+        #The expectation value methods use AA, AAA and C, so these must match the state and the Hamiltonian.
+        self.calc_C()
+        return trunc
                                                         
         
     
-- 
2.43.0


From 63bd9527ca436ccaa98c02a0679d551e59b30e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 65/95] fix: take_step_dissipative() failed for real Lindblad
 operators

---
 evoMPS/tdvp_gen_diss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index 303383a..e60471f 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -143,7 +143,7 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
             u = sp.random.normal(0, sp.sqrt(dt), (2,))
             W = (u[0] + 1.j * u[1]) / sp.sqrt(2)
             
-            Leff = -0.5 * Lr.conj().T.dot(Lr).reshape(L.shape)
+            Leff = -0.5 * Lr.conj().T.dot(Lr).reshape(L.shape).astype(sp.complex128)
             
             #Add the diffusion terms to the effective Hamiltonian by dividing by the step length
             Leff += (sp.conj(Le) + W/dt) * L
-- 
2.43.0


From 5f58dee286afe6998f0397ec159d8d1ae125294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 66/95] fix: take_step_dissipative() failed for 3-site,
 callable or absent Hamiltonians

---
 evoMPS/tdvp_gen_diss.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index e60471f..99c7142 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -151,7 +151,11 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
             Leffs.append((n, Leff))
                 
         #Build the effective Hamiltonian
-        HL = [-1.j * hn if hn is not None else None for hn in self.ham]
+        HL = [None] * (self.N + 1)
+        for n in range(1, self.N - self.ham_sites + 2):
+            hn = self.get_ham_term(n)
+            if hn is not None:
+                HL[n] = -1.j * hn
         for (n, Leff) in Leffs:
             if HL[n] is None:
                 HL[n] = Leff
-- 
2.43.0


From fa23a2df5f0f27ddadaa323df53270cec9744a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 67/95] fix: take_step_dissipative() failed with gauge_fixing =
 'left'

---
 evoMPS/tdvp_gen_diss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index 99c7142..600f875 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -166,7 +166,10 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
         ham_tmp = self.ham
         self.ham = HL
         self.calc_C()
-        self.calc_K()
+        if self.gauge_fixing == 'right':
+            self.calc_K()
+        else:
+            self.calc_K_l()
         
         #Let take_step compute the tangent vector
         self.take_step(-dt, save_memory=save_memory, calc_Y_2s=calc_Y_2s, 
-- 
2.43.0


From 7a8aa39b42dbcdadeb36966535be3c27a962a3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 68/95] fix: calc_B_1s_diss() did not project out the change in
 norm

---
 evoMPS/tdvp_gen_diss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index 600f875..ecca86a 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -206,7 +206,7 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
             for t in range(self.q[n]):
                 newAn[s] += self.A[n][t] * op[s, t]
                 
-        r_nm1 = TDVP.tm.eps_r_noop(self.r[n], newAn, newAn)
+        r_nm1 = TDVP.tm.eps_r_noop(self.r[n], newAn, self.A[n])
         ev = mm.adot(self.l[n - 1], r_nm1)
 
         newAn -= ev * self.A[n] #norm-fixing
-- 
2.43.0


From 5a1479efac69db1e772e40dc61c5d546944815d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 69/95] fix: expect_2s() and expect_3s() failed for 3-site,
 callable or absent Hamiltonians

---
 evoMPS/tdvp_gen.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 741c20b..c7aaaae 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1422,6 +1422,10 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             self.H_expect += HMR[0][0, 0]
 
         
+    def _is_ham_term(self, op, n):
+        return (not op is None and not self.ham is None and not callable(self.ham)
+                and op is self.ham[n])
+
     def expect_2s(self, op, n, AA=None):
         """Computes the expectation value of a nearest-neighbour two-site operator.
         
@@ -1446,7 +1450,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         if AA is None:
             AA = self.AA[n]
         
-        if not op is None and op is self.ham[n] and self.ham_sites == 2:
+        if self.ham_sites == 2 and self._is_ham_term(op, n):
             res = tm.eps_r_op_2s_C12_AA34(self.r[n + 1], self.C[n], AA)
             return m.adot(self.l[n - 1], res)
         else:
@@ -1480,7 +1484,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             else:
                 AAA = tm.calc_AAA_AA(self.AA[n], self.A[n + 2])
                 
-        if not op is None and op is self.ham[n] and self.ham_sites == 3:
+        if self.ham_sites == 3 and self._is_ham_term(op, n):
             res = tm.eps_r_op_3s_C123_AAA456(self.r[n + 2], self.C[n], AAA)
             return m.adot(self.l[n - 1], res)
         else:
-- 
2.43.0


From fbcc8a777849dd191b1319c2db5459a848362c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 70/95] fix: expectation values were those of a previous state
 if the Hamiltonian was absent

---
 evoMPS/tdvp_gen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index c7aaaae..8b505f1 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -364,9 +364,6 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         C[n] depends on A[n] through A[n + self.ham_sites - 1].
         
         """
-        if self.ham is None:
-            return 0
-        
         if n_low < 1:
             n_low = 1
         if n_high < 1:
@@ -381,6 +378,9 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                     self.AAA[n] = tm.calc_AAA_AA(self.AA[n], self.A[n + 2])
             else:
                 self.AAA.fill(None)
+
+        if self.ham is None:
+            return 0
         
         for n in range(n_low, n_high + 1):
             ham_n = self.get_ham_term(n)
-- 
2.43.0


From 96542c2e2e4fa45cd12ae44aa0421018d1601ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 71/95] fix: sandwich calc_r() left r[N + 1] out of date

---
 evoMPS/mps_sandwich.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 1058ebc..8485429 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -275,6 +275,8 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         self.r[self.N] = self.uni_r.r[-1]
         super(EvoMPS_MPS_Sandwich, self).calc_r(n_low=n_low, n_high=n_high)
 
+        self.r[self.N + 1] = self.uni_r.r[0]
+
     def simple_renorm(self, update_lr=True):
         """Renormalizes the state in by multiplying one of the parameter
         tensors by a factor.
-- 
2.43.0


From d151b6fb7e934b217f8da09522ec2b4f742d299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 72/95] fix: sandwich get_l() and get_r() assumed N to be a
 multiple of the block length

---
 evoMPS/mps_sandwich.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 8485429..9aaae13 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -607,7 +607,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
             return self.uni_l.l[(n - 1) % self.uni_l.L]
         else:
             l_m1 = self.l[self.N + 1] #this is position 0 in the block
-            for m in (sp.arange(self.N + 2, n + 1) - 1) % self.uni_r.L:
+            for m in (sp.arange(self.N + 2, n + 1) - self.N - 1) % self.uni_r.L:
                 l_m1 = tm.eps_l_noop(l_m1, self.uni_r.A[m], self.uni_r.A[m])
             return l_m1
 
@@ -617,7 +617,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         if 0 <= n <= self.N + 1:
             return self.r[n]
         elif n > self.N + 1:
-            return self.uni_r.r[(n - 1) % self.uni_r.L]
+            return self.uni_r.r[(n - self.N - 1) % self.uni_r.L]
         else:
             if r_np1 is None:
                 r_m = self.r[0]
-- 
2.43.0


From 68a92b575f1bec5cf03f0e471a4179cd6119aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 73/95] fix: sandwich load_state() with autogrow grew by too
 many sites

---
 evoMPS/mps_sandwich.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 9aaae13..ac92211 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -773,7 +773,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         if autogrow and toload[0].shape[0] != self.A.shape[0]:
             newN = toload[0].shape[0] - 3
             print("Changing N to: %u" % newN)
-            self.grow_left(newN - self.N)
+            self.grow_left((newN - self.N) // self.uni_l.L)
 
         if toload[0].shape != self.A.shape:
             print("Cannot load state: Dimension mismatch!")
-- 
2.43.0


From aa7c465d4d5c8e86532f9034bf32535a5ae3ae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 74/95] fix: sandwich TDVP load_state() failed for bond
 dimensions above one

---
 evoMPS/tdvp_sandwich.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 0f5fe3c..358d3a5 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -938,9 +938,9 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
 
         toload = sp.load(file_name, allow_pickle=True)
 
-        if toload[3]:
+        if toload[3] is not None:
             self.uni_l.K_left[-1] = toload[3]
-        if toload[6]:
+        if toload[6] is not None:
             self.uni_r.K[0] = toload[6]
 
         if do_update:
-- 
2.43.0


From 453b0e6e3afac55313125dae8f7e9a84ce0f3ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 75/95] fix: sandwich TDVP failed for Hamiltonians given as
 functions

---
 evoMPS/tdvp_sandwich.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 358d3a5..705567b 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -334,12 +334,11 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         self._C = sp.empty((self.N + 2), dtype=sp.ndarray) #Elements 1..N-1
 
         for n in range(-1, self.N + 1):
-            if n <= self.N - self.ham_sites + 1:
-                ham_shape = []
-                for i in range(self.ham_sites):
-                    ham_shape.append(self.get_q(n + i))
-                C_shape = tuple(ham_shape + [self.get_D(n - 1), self.get_D(n - 1 + self.ham_sites)])
-                self._C[n+1] = sp.full(C_shape, sp.NaN, dtype=self.typ, order=self.odr)
+            ham_shape = []
+            for i in range(self.ham_sites):
+                ham_shape.append(self.get_q(n + i))
+            C_shape = tuple(ham_shape + [self.get_D(n - 1), self.get_D(n - 1 + self.ham_sites)])
+            self._C[n+1] = sp.full(C_shape, sp.NaN, dtype=self.typ, order=self.odr)
         for n in range(self.N_centre + 1):
             self.K_l[n] = sp.full((self.D[n], self.D[n]), sp.NaN, dtype=self.typ, order=self.odr)
         for n in range(self.N_centre, self.N + 2):
-- 
2.43.0


From 4ad5d667873645f1f606f03cdc4fa03d6656fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 76/95] fix: sandwich TDVP with 3-site terms used the last
 window term at the left edge

---
 evoMPS/tdvp_sandwich.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 705567b..9878ad6 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -428,6 +428,12 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
                 ham_n = lambda *args: self.ham(n, *args)
                 ham_n = sp.vectorize(ham_n, otypes=[sp.complex128])
                 ham_n = sp.fromfunction(ham_n, tuple(self.get_C(n).shape[:-2] * 2))
+            elif n < 0:
+                #The window Hamiltonian starts with term 0
+                ham_n = self.uni_l.ham
+                if callable(ham_n):
+                    ham_n = sp.vectorize(ham_n, otypes=[sp.complex128])
+                    ham_n = sp.fromfunction(ham_n, tuple(self.get_C(n).shape[:-2] * 2))
             else:
                 ham_n = self.ham[n]
 
-- 
2.43.0


From e660cef46c3543c81a2a43cf00bb09498221d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 77/95] fix: sandwich TDVP assigned 3-site energies to the
 wrong terms

---
 evoMPS/tdvp_sandwich.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 9878ad6..590eea6 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -484,7 +484,12 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
                     self.K_l[n - 1], self.get_C(n - 2), self.get_l(n - 3), self.r[n],
                     self.A[n], self.get_AAA(n - 2))
                 
-            self.h_expect[n - 1] = he
+            #The leftmost of the terms included in K_l[n]
+            m = n - self.ham_sites + 1
+            if m < 0:
+                self._h_expect_left = he
+            else:
+                self.h_expect[m] = he
 
         self.dH_expect = (mm.adot_noconj(self.K_l[self.N_centre], self.get_r(self.N_centre)) 
                           + mm.adot(
@@ -608,10 +613,11 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
                     
                 Bc[s] += lcm1_i.dot(Bcsbit)
         else:
+            h_cm2 = self.h_expect[Nc - 2] if Nc > 1 else self._h_expect_left
             Cc = self.get_C(Nc) - self.h_expect[Nc] * self.get_AAA(Nc)
             Ccm1 = self.get_C(Nc - 1) - self.h_expect[Nc - 1] * self.get_AAA(Nc - 1)
             Ccm1 = Ccm1.transpose((1,0,2,3,4)).copy()
-            Ccm2 = self.get_C(Nc - 2) - self.h_expect[Nc - 2] * self.get_AAA(Nc - 2)
+            Ccm2 = self.get_C(Nc - 2) - h_cm2 * self.get_AAA(Nc - 2)
             Ccm2 = Ccm2.transpose((2,0,1,3,4)).copy()
             for s in range(Bc.shape[0]):
                 Bc[s] = mm.mmul(Ac[s], Kcp1, rc_i)
-- 
2.43.0


From 7501e139035f3a2783cd814b8d3ad9dd48e27a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 78/95] fix: the energy of a uniform sandwich state was not
 zero for larger unit cells

---
 evoMPS/tdvp_sandwich.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 590eea6..2356f0c 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -461,7 +461,7 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
 
         self.uni_l.calc_AA()
         self.uni_l.calc_C()
-        K_left, h_left_uni = self.uni_l.calc_K_l()
+        K_left, _ = self.uni_l.calc_K_l()
         
         self.K_l[0][:] = K_left[-1]
 
@@ -495,7 +495,7 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
                           + mm.adot(
                               self.get_l(self.N_centre - self.ham_sites + 1),
                               self.K[self.N_centre - self.ham_sites + 2]) 
-                          - (self.N + self.ham_sites - 1) * h_left_uni)
+                          - self._h_bulk())
         
 #        self.h_left = mm.adot_noconj(K_left, self.r[0])
 #        self.h_right = mm.adot(self.l[self.N], self.K[self.N + 1])
@@ -510,6 +510,16 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
 #        print self.h_expect
 
 
+    def _h_bulk(self):
+        """The energy of all terms of the window Hamiltonian in the left bulk state.
+        """
+        uni = self.uni_l
+        if self.ham_sites == 2:
+            hs = [uni.expect_2s(uni.ham, k) for k in range(uni.L)]
+        else:
+            hs = [uni.expect_3s(uni.ham, k) for k in range(uni.L)]
+        return sum(hs[(n - 1) % uni.L] for n in range(2 - self.ham_sites, self.N + 1))
+
     def calc_x(self, n, Vsh, sqrt_l, sqrt_r, sqrt_l_inv, sqrt_r_inv, right=True):
         """Calculate the parameter matrix x* giving the desired B.
 
-- 
2.43.0


From a0ce264b0c6875254aeff035ddc944758ad93551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 79/95] fix: sandwich TDVP from_mps() failed for different left
 and right bond dimensions

---
 evoMPS/tdvp_sandwich.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 2356f0c..702e507 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -371,10 +371,11 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         uni_l = EvoMPS_TDVP_Uniform.from_mps(mps.uni_l, ham_L, ham_sites=ham_sites)
         uni_r = EvoMPS_TDVP_Uniform.from_mps(mps.uni_r, ham_R, ham_sites=ham_sites)
         tdvp = cls(mps.N, uni_l, uni_r, update_bulks=False)
+        tdvp.D = cp.deepcopy(mps.D)
+        tdvp._init_arrays()
         tdvp.A = cp.deepcopy(mps.A)
         tdvp.l = cp.deepcopy(mps.l)
         tdvp.r = cp.deepcopy(mps.r)
-        tdvp.D = cp.deepcopy(mps.D)
         tdvp.ham = ham_C
         # TODO: Instead of updating, copy more stuff?
         tdvp.update(restore_CF=False, normalize=True)
-- 
2.43.0


From 79a7044d28b1cf7b74a25eb9967a83008a8465f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 80/95] fix: sandwich take_step_RK4() overwrote the tangent
 vector supplied by the caller

---
 evoMPS/tdvp_sandwich.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 702e507..b466600 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -881,7 +881,7 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
             A0[n] = self.A[n].copy()
 
         B = self.calc_B() if B_i is None else B_i[:]
-        B_fin = B[:]
+        B_fin = [None if Bn is None else Bn.copy() for Bn in B]
 
         for n in range(1, self.N + 1):
             if not B[n] is None:
-- 
2.43.0


From b820d201c7c5764f692f5aa9a023e78474a15794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 81/95] fix: excitation solvers repeated, and could lose,
 converged results

---
 evoMPS/tdvp_uniform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index c9b1cbf..8355f24 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -829,6 +829,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
                 res = las.eigsh(op, which=which, k=nev, v0=v0, ncv=ncv,
                                  return_eigenvectors=return_eigenvectors, 
                                  maxiter=max_itr, tol=tol, sigma=sigma)
+                break
             except las.ArpackNoConvergence:
                 log.warning("excite_top_triv: Retry %u!", i)
                 v0 = None
@@ -958,6 +959,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
                 res = las.eigsh(op, sigma=sigma, which=which, k=nev, v0=v0,
                                     return_eigenvectors=return_eigenvectors, 
                                     maxiter=max_itr, tol=tol, ncv=ncv)
+                break
             except las.ArpackNoConvergence:
                 log.warning("excite_top_nontriv: Retry %u!", i)
                 v0 = None
-- 
2.43.0


From b5cbdfb523c7a3fa852586c2521105b232b0cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 82/95] fix: connected correlations of tangent-vector states
 used the wrong site

---
 evoMPS/tdvp_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 8355f24..4110a35 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1753,7 +1753,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         
         g = sp.array(g)
         
-        c = g - exs1 * exs2
+        c = g - exs1[0] * exs2
                    
         return c, g
 
-- 
2.43.0


From 86623b41eef4fdaae575693d1bfb64991209fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 83/95] fix: exported and imported uniform states shared their
 arrays

---
 evoMPS/tdvp_uniform.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 4110a35..d7308fe 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1498,17 +1498,18 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         if userdata is None:
             userdata = self.userdata
 
-        lL = np.asarray(self.l[-1])
-        rL = np.asarray(self.r[-1])
+        #Copies, since the state may later be modified in place
+        lL = np.array(self.l[-1])
+        rL = np.array(self.r[-1])
             
         tosave = np.empty((5), dtype=np.ndarray)
         if self.L == 1:
-            tosave[0] = self.A[0]
+            tosave[0] = self.A[0].copy()
         else:
             tosave[0] = sp.array(self.A)
         tosave[1] = lL
         tosave[2] = rL
-        tosave[3] = self.K[0]
+        tosave[3] = self.K[0].copy()
         tosave[4] = np.asarray(userdata)
         
         return tosave
@@ -1519,12 +1520,10 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
     def import_state(self, state, expand=False, truncate=False, 
                      expand_q=False, shrink_q=False, refac=0.1, imfac=0.1,
                      do_update=True):
-        newA = state[0]
-        newlL = state[1]
-        newrL = state[2]
-        newK0 = state[3]
-        if state.shape[0] > 4:
-            self.userdata = state[4]
+        newA = state[0].copy()
+        newlL = np.array(state[1])
+        newrL = np.array(state[2])
+        newK0 = state[3].copy()
             
         if len(newA.shape) == 3:
             newA = [newA]
@@ -1598,6 +1597,9 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         else:
             log.error("Failed to import state!")
             return False
+
+        if state.shape[0] > 4:
+            self.userdata = state[4]
             
         if do_update:
             self.update()
-- 
2.43.0


From bb3745b164d773ae378f89b188b4aca158b07c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 84/95] fix: importing uniform states with a different local
 dimension failed

---
 evoMPS/tdvp_uniform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index d7308fe..d6d65cb 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1576,7 +1576,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
             self.K[0] = newK0
             self.l[-1] = np.asarray(newlL)
             self.r[-1] = np.asarray(newrL)
-            self.expand_q(newQ)
+            self.set_q(newQ)
             self.lL_before_CF = self.l[-1]
             self.rL_before_CF = self.r[-1]
             log.warning("EXPANDED in q!")
@@ -1585,12 +1585,12 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         newA[0].shape[2]) and (newA[0].shape[1] == self.A[0].shape[1]):
             newQ = self.q
             savedQ = newA[0].shape[0]
-            self._init_arrays(self.D, savedQ)
+            self._init_arrays(self.D, savedQ, self.L)
             self.A = newA
             self.K[0] = newK0
             self.l[-1] = np.asarray(newlL)
             self.r[-1] = np.asarray(newrL)
-            self.shrink_q(newQ)
+            self.set_q(newQ)
             self.lL_before_CF = self.l[-1]
             self.rL_before_CF = self.r[-1]
             log.warning("SHRUNK in q!")
-- 
2.43.0


From 07eb7ef57eac4c44f462c01cd16854205a154d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 85/95] fix: uniform TDVP from_tensors() did not update the new
 object

---
 evoMPS/tdvp_uniform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index d6d65cb..854487e 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -109,7 +109,10 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         q, D = As[0].shape[0:2]
         dtype = As[0].dtype
         mps = EvoMPS_MPS_Uniform.from_tensors(As, do_update=do_update)
-        return cls.from_mps(mps, ham, ham_sites)
+        tdvp = cls.from_mps(mps, ham, ham_sites)
+        if do_update:
+            tdvp.update(restore_CF=False)
+        return tdvp
 
     @classmethod
     def from_mps(cls, mps, ham, ham_sites=None):
-- 
2.43.0


From 78bc10af8fa1de31269cfa32a4ee0cacb3df2933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 86/95] fix: convert_to_TI_blocked() failed with a callable ham
 and kept an outdated ham_tp

---
 evoMPS/tdvp_uniform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 854487e..3ce25da 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -176,6 +176,9 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         q = self.q
         newq = q**L
         
+        if callable(self.ham):
+            self.set_ham_array_from_function(self.ham)
+
         #Currently, all supported Hams become nearest-neighbour.
         newham = sp.zeros((newq**2, newq**2), dtype=self.typ)
         oldham = self.ham.reshape((q**self.ham_sites, q**self.ham_sites))
@@ -185,6 +188,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
             
         newham = newham.reshape((newq, newq, newq, newq))
         self.ham = newham
+        self.ham_tp = None
         super(EvoMPS_TDVP_Uniform, self).convert_to_TI_blocked(do_update=do_update)
             
     def set_ham_array_from_function(self, ham_func):
-- 
2.43.0


From f319018d7d98451645b58ae304fc9ee24b9401fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 87/95] fix: uniform TDVP expand_D() did not report a refused
 bond dimension

---
 evoMPS/tdvp_uniform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 3ce25da..762e6f8 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1645,7 +1645,8 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         oldK0 = self.K[0]
         oldD = self.D
 
-        super(EvoMPS_TDVP_Uniform, self).expand_D(newD, refac=refac, imfac=imfac)
+        if super(EvoMPS_TDVP_Uniform, self).expand_D(newD, refac=refac, imfac=imfac) is False:
+            return False
         #self._init_arrays(newD, self.q)
         
         self.K[0][:oldD, :oldD] = oldK0
-- 
2.43.0


From 27d4fc911cd94dba047b3dff7fbc52ef260be3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:28 +0000
Subject: [PATCH 88/95] fix: sandwich overlap_tangent() summed the left bulk
 with the wrong momentum and projectors

---
 evoMPS/mps_sandwich.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index ac92211..f569fca 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -737,10 +737,17 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
 
         pseudo = top_triv
 
-        # FIXME: rR is not correct here since, even if top_triv is true,
-        #        AL and AR need not be equal.
+        # Even if top_triv is true, AL and AR need not be equal.
+        lM = rM = None
+        if pseudo:
+            _, _, lM = self.uni_l.fidelity_per_site(self.uni_r, full_output=True, left=True)
+            _, _, rM = self.uni_l.fidelity_per_site(self.uni_r, full_output=True, left=False)
+            lM = lM.reshape(AL.shape[1:])
+            rM = rM.reshape(AL.shape[1:])
+            rM = rM / mm.adot(lM, rM)
+        # The left mode of pinv_1mE() acts with the conjugate transpose.
         vBL = pinv_1mE(
-            tm.eps_l_noop(lL, AL, B), [AL], [AR], lL, rR, p=p, 
+            tm.eps_l_noop(lL, AL, B), [AL], [AR], lM, rM, p=-p, 
             left=True, pseudo=pseudo)
 
         rs = [rR]
@@ -749,7 +756,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         # rs[0] is now the right half including site 1, so the r matrix needed
         # for computations involving site 0.
 
-        ol_left_bulk = mm.adot(vBL, rs[0]) * sp.exp(-1.j * p)
+        ol_left_bulk = mm.adot(vBL, rs[0])
 
         l = lL
         ols_window = []
-- 
2.43.0


From f4587f2343080bb38c594748af8540dcafdff1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 89/95] fix: uniform from_tensors() created a real state, which
 cannot be updated, from real tensors

---
 evoMPS/mps_uniform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 7522a61..9507258 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -195,7 +195,8 @@ class EvoMPS_MPS_Uniform(object):
         `As` is a list of the tensor in the unit cell.
         """
         q, D = As[0].shape[0:2]
-        dtype = As[0].dtype
+        #The algorithms need complex tensors, even if those supplied are real
+        dtype = np.result_type(np.complex64, *[A.dtype for A in As])
         mps = cls(D, q, L=len(As), dtype=dtype, do_update=False)
         for j in range(len(As)):
             mps.A[j][:] = As[j]
-- 
2.43.0


From 7c3e4a5af7d263855225040c4d8da60479ce8fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:17 +0000
Subject: [PATCH 90/95] fix: sandwich from_tensors() used the caller's arrays,
 rescaling them and sharing them between the bulks

---
 evoMPS/mps_sandwich.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index f569fca..4f7c3bc 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -26,7 +26,7 @@ def sandwich_from_tensors(As_L, As_C, As_R):
 
     qL = As_L[0].shape[0]
     DL = As_L[0].shape[1]
-    dtype = As_L[0].dtype
+    dtype = sp.complex128
     sw = EvoMPS_MPS_Sandwich(
         N,
         EvoMPS_MPS_Uniform(
@@ -34,7 +34,7 @@ def sandwich_from_tensors(As_L, As_C, As_R):
     )
 
     for n in range(1, N + 1):
-        sw.A[n] = As_C[n - 1]
+        sw.A[n] = sp.array(As_C[n - 1], dtype=sw.typ)
 
     Ds = sp.array(
         [DL] +
@@ -43,8 +43,8 @@ def sandwich_from_tensors(As_L, As_C, As_R):
     )
     sw.D = Ds
 
-    sw.uni_l.A = As_L
-    sw.uni_r.A = As_R
+    sw.uni_l.A = [sp.array(A, dtype=sw.typ) for A in As_L]
+    sw.uni_r.A = [sp.array(A, dtype=sw.typ) for A in As_R]
     sw.uni_l.update(restore_CF=False)
     sw.uni_r.update(restore_CF=False)
 
@@ -141,7 +141,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
 
         qL, DL = As_L[0].shape[0:2]
         qR, DR = As_R[0].shape[0:2]
-        dtype = As_L[0].dtype
+        dtype = sp.complex128
         sw = cls(
             N,
             EvoMPS_MPS_Uniform(
@@ -152,7 +152,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         )
 
         for n in range(1, N + 1):
-            sw.A[n] = As_C[n - 1]
+            sw.A[n] = sp.array(As_C[n - 1], dtype=sw.typ)
 
         Ds = sp.array(
             [DL] +
@@ -161,8 +161,8 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         )
         sw.D = Ds
 
-        sw.uni_l.A = As_L
-        sw.uni_r.A = As_R
+        sw.uni_l.A = [sp.array(A, dtype=sw.typ) for A in As_L]
+        sw.uni_r.A = [sp.array(A, dtype=sw.typ) for A in As_R]
         sw.uni_l.update(restore_CF=False)
         sw.uni_r.update(restore_CF=False)
 
-- 
2.43.0


From 14088488ae10c36bf6c701378dfec0f6fe7d5590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 91/95] fix: herm_fac_with_inv() inverted rank-deficient
 matrices whose Cholesky pivots are not tiny

---
 evoMPS/tdvp_common.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index e5e13af..a0f6c88 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -671,16 +671,20 @@ def herm_fac_with_inv(A, lower=False, zero_tol=1E-15, return_rank=False,
     if not force_evd:
         try:
             x = la.cholesky(A, lower=lower)
-            if abs(x.diagonal()).min()**2 <= zero_tol:
-                #Numerically rank-deficient, although Cholesky succeeded
-                force_evd = True
-            else:
-                if calc_inv:
-                    xi = mm.invtr(x, lower=lower)
-                else:
+            if abs(x.diagonal()).min()**2 > zero_tol:
+                xi = mm.invtr(x, lower=lower)
+                
+                #The smallest eigenvalue is at least the inverse of the squared
+                #Frobenius norm of xi. The diagonal alone does not bound it.
+                force_evd = la.norm(xi)**2 * zero_tol >= 1
+                
+                if not calc_inv:
                     xi = None
                 
                 nonzeros = A.shape[0]
+            else:
+                #Numerically rank-deficient, although Cholesky succeeded
+                force_evd = True
         except sp.linalg.LinAlgError: #this usually means a is not pos. def.
             force_evd = True
             
-- 
2.43.0


From 83e34c288d627f409429ddb681c6d9fd0208e12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 92/95] fix: uniform l and r had a random phase when their
 elements sum to zero (iterative) or have equal moduli (dense)

---
 evoMPS/mps_uniform.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 9507258..a3db6a4 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -328,6 +328,10 @@ class EvoMPS_MPS_Uniform(object):
         lL = eVL[:,i].reshape((self.D, self.D))
         rL = eVR[:,i].reshape((self.D, self.D))
         
+        #remove any additional phase factors: the traces should be positive
+        lL *= np.exp(-1.j * np.angle(np.trace(lL)))
+        rL *= np.exp(-1.j * np.angle(np.trace(rL)))
+        
         norm = m.adot(lL, rL)
         lL *= 1 / sp.sqrt(norm)
         rL *= 1 / sp.sqrt(norm)
@@ -385,15 +389,12 @@ class EvoMPS_MPS_Uniform(object):
             log.error("_calc_lr_ARPACK(nev=%u,ncv=%u): Failed to converge! (%s)", nev, ncv, "l" if calc_l else "r")
             raise EvoMPSNoConvergence("_calc_lr_ARPACK: Failed to converge!")
         
-        #remove any additional phase factor on the eigenvector
-        eVmean = eV.mean()
-        eV *= sp.sqrt(sp.conj(eVmean) / eVmean)
-        
-        if eV.mean() < 0:
-            eV *= -1
-
         eV = eV.reshape(self.D, self.D)
         
+        #remove any additional phase factor on the eigenvector: its trace should be
+        #positive (other sums of elements can vanish)
+        eV *= np.exp(-1.j * np.angle(np.trace(eV)))
+        
         x[:] = eV
                     
         if rescale: 
@@ -576,16 +577,18 @@ class EvoMPS_MPS_Uniform(object):
             tmp[:] = opE.matvec(x)
                     
             ev_mag = la.norm(tmp) / n
-            ev = (tmp.mean() / x.mean()).real
             tmp *= (1 / ev_mag)
             if la.norm(tmp - x) < atol + rtol * n:
                 x[:] = tmp
                 break
         
         x = x.reshape((self.D, self.D))
+        
+        #remove any phase factor due to rounding errors in the early iterations
+        x *= np.exp(-1.j * np.angle(np.trace(x)))
                     
         if rescale: 
-            fac = (1 / sp.sqrt(ev))**(1. / len(A1))
+            fac = (1 / sp.sqrt(ev_mag))**(1. / len(A1))
             for A in A1:
                 A *= fac
                 
-- 
2.43.0


From 8ff68a1f80217aafde44a7650ad5589cc6af339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:35 +0000
Subject: [PATCH 93/95] fix: sandwich states with a window of one site had no
 centre site and counted it twice in overlap()

---
 evoMPS/mps_sandwich.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 4f7c3bc..b1b4f8f 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -68,7 +68,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         self.N = N
         """The number of sites. Do not change after initializing."""
         
-        self.N_centre = N // 2
+        self.N_centre = max(1, N // 2)
         """The 'centre' site. This affects the gauge-fixing and canonical
            form. It is the site between the left-gauge parts and the 
            right-gauge parts."""
@@ -703,14 +703,13 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         for s in range(AN.shape[0]):
             AN[s] = AN[s].dot(gri)
 
-        A1 = other.A[1].copy()
-        for s in range(A1.shape[0]):
-            A1[s] = gl.dot(A1[s])
+        oA = list(other.A)
+        oA[self.N] = AN
+        oA[1] = sp.array([gl.dot(As) for As in oA[1]])
 
-        r = tm.eps_r_noop(self.uni_r.r[-1], self.A[self.N], AN)
-        for n in range(self.N - 1, 1, -1):
-            r = tm.eps_r_noop(r, self.A[n], other.A[n])
-        r = tm.eps_r_noop(r, self.A[1], A1)
+        r = self.uni_r.r[-1]
+        for n in range(self.N, 0, -1):
+            r = tm.eps_r_noop(r, self.A[n], oA[n])
 
         return mm.adot(self.uni_l.l[-1], r)
 
-- 
2.43.0


From b603c67f357aaa953a1cf7691d6cd26c1b1667a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:04 +0000
Subject: [PATCH 94/95] fix: sandwich calc_B_centre() inverted rank-deficient l
 and r

---
 evoMPS/tdvp_sandwich.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index b466600..403609b 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -583,15 +583,9 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         
         Nc = self.N_centre
 
-        try:
-            rc_i = self.r[Nc].inv()
-        except AttributeError:
-            rc_i = mm.invmh(self.r[Nc])
-            
-        try:
-            lcm1_i = self.l[Nc - 1].inv()
-        except AttributeError:
-            lcm1_i = mm.invmh(self.l[Nc - 1])
+        _, _, l_sqrt_i, r_sqrt_i = self.calc_l_r_roots(Nc)
+        rc_i = r_sqrt_i.dot(r_sqrt_i)
+        lcm1_i = l_sqrt_i.dot(l_sqrt_i)
         
         Acm1 = self.get_A(Nc - 1)
         Ac = self.A[Nc]
-- 
2.43.0


From abd81667894dc09118ccdf994a7ef8b6eafaf562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:01 +0000
Subject: [PATCH 95/95] fix: sandwich take_step() overwrote the tangent vector
 supplied by the caller

---
 evoMPS/tdvp_sandwich.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 403609b..a60d57e 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -826,8 +826,7 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         B : optional list of tensors
             The current evolution vector, to avoid duplicating computations.
         """
-        if B is None:
-            B = self.calc_B()
+        B = self.calc_B() if B is None else list(B)
         if dynexp:
             BB12, BB21, dD = self.calc_BB(sv_tol, dD_max, D_max)
 
-- 
2.43.0

