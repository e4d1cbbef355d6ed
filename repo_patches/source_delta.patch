From e9943ea33421c1e99b80eef61ce3289e4a41e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 01/45] fix: solve_ide_trapz_stab sliced the history along the
 wrong dimension

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index f99caa5..b9e73a8 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -477,7 +477,7 @@ subroutine solve_ide_trapz_stab(len_mem, dim_basis, dim_other, kernel, E0, f_coe
 
   do i=1,lenTraj-1
     max_len = min(i,len_mem)
-    call trapz_integral(memory,dt,max_len, E(i-max_len:i,:,:),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
+    call trapz_integral(memory,dt,max_len, E(:,:,i-max_len:i),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
     E(:,:,i) = matmul(E(:,:,i-1)-dt*memory+dt*matmul(E(:,:,i-1),f_coeff),invK0)
     ! projection onto the unit simplex for stabilisation, start with simple normalization
     E(:,:,i) = max(E(:,:,i),0.)
-- 
2.43.0


From b0c28f65d3a8117092a384515e309b9191cb4524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 02/45] fix: memory_trapz counted the last kernel point one
 time and a half

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index b9e73a8..747284f 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -326,7 +326,7 @@ subroutine memory_trapz(lenTraj,len_mem, dim_basis, dim_x, memory, kernel, E, dt
 
   do i=1,lenTraj !! for i in range(1, lenTraj):
     memory(i,:)=-0.5*dt*matmul(E(i,:),kernel(0,:,:))
-    do j=1,min(i-1,len_mem)
+    do j=1,min(i,len_mem)-1
        memory(i,:)=memory(i,:)-dt*matmul(E(i-j,:),kernel(j,:,:))
     end do
    memory(i,:)=memory(i,:)-0.5*dt*matmul(E(i-min(i,len_mem),:),kernel(min(i,len_mem),:,:))
-- 
2.43.0


From b322782bcdab69bd5236cc13cb9b6b1ee56fd664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 03/45] fix: midpoint inversion left the last kernel point at
 zero for odd lengths

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 747284f..3995da2 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -145,7 +145,7 @@ subroutine kernel_first_kind_midpoint(lenTraj, dim_basis,dim_x, kernel,  B, DxB,
 
   kernel(0,:,:)=-1*matmul(invB0,DxB(:,:,1))
 
-  do i=1,lenTraj/2-1 !! for i in range(1, lenTraj):
+  do i=1,(lenTraj-1)/2 !! for i in range(1, lenTraj):
      call midpoint_integral(num,2*dt,i,B(:,:,0:2*i),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
      kernel(i,:,:)=-1*matmul(invB0,num+DxB(:,:,2*i+1))
   end do
-- 
2.43.0


From 9a08067c95e074f2f05ad28ba5f1bd4403beceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:14 +0000
Subject: [PATCH 04/45] fix: a singular matrix in the Volterra inversion
 terminated the Python process

---
 VolterraBasis/fkernel.f90 | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 3995da2..edc5701 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -9,7 +9,9 @@ contains
 
 ! Returns the inverse of a matrix calculated by finding the LU
 ! decomposition.  Depends on LAPACK.
+! If the matrix is numerically singular, the inverse is filled with NaN.
 function inv(A) result(Ainv)
+  use, intrinsic :: ieee_arithmetic, only: ieee_value, ieee_quiet_nan
   implicit none
   double precision,intent(in) :: A(:,:)
   double precision            :: Ainv(size(A,1),size(A,2))
@@ -22,11 +24,14 @@ function inv(A) result(Ainv)
   ! SGETRF computes an LU factorization of a general M-by-N matrix A
   ! using partial pivoting with row interchanges.
   call DGETRF(n,n,Ainv,n,ipiv,info)
-  if (info.ne.0) stop 'Matrix is numerically singular!'
+  if (info.ne.0) then ! Do not stop, that would terminate the calling Python process
+    Ainv = ieee_value(Ainv, ieee_quiet_nan)
+    return
+  end if
   ! SGETRI computes the inverse of a matrix using the LU factorization
   ! computed by SGETRF.
   call DGETRI(n,Ainv,n,ipiv,work,n,info)
-  if (info.ne.0) stop 'Matrix inversion failed!'
+  if (info.ne.0) Ainv = ieee_value(Ainv, ieee_quiet_nan)
 end function inv
 end module lapackMod
 
-- 
2.43.0


From edf46aeba2d4f76016e1ef575c1b748701d526ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:14 +0000
Subject: [PATCH 05/45] fix: FeaturesCombiner.deriv only kept the first and
 last basis

---
 VolterraBasis/basis/_basis_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index a0c2ba0..e1f1645 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -256,8 +256,8 @@ class FeaturesCombiner(TransformerMixin):
         grad = self.basis_set[0].deriv(X, deriv_order=deriv_order)
         for b in self.basis_set[1:]:
             # print(grad.shape, b.deriv(X, deriv_order=deriv_order).shape)
-            features = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order)), axis=1)
-        return features
+            grad = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order)), axis=1)
+        return grad
 
     def hessian(self, X):
         return self.deriv(X, deriv_order=2)
-- 
2.43.0


From ca5ca91a960a05ee16a6317abd6d8b56fa59f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:14 +0000
Subject: [PATCH 06/45] fix: antiderivative of centered LinearFeatures ignored
 the mean

---
 VolterraBasis/basis/_basis_features.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index e1f1645..bffd04f 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -46,7 +46,9 @@ class LinearFeatures(TransformerMixin):
         return self.deriv(X, deriv_order=2)
 
     def antiderivative(self, X, order=1):
-        return 0.5 * np.power(X, 2)
+        if order > 1:
+            raise NotImplementedError
+        return 0.5 * np.power(X, 2) - self.mean_ * X
 
 
 class PolynomialFeatures(TransformerMixin):
-- 
2.43.0


From 3052cbba913ba16747d4c427a56446125187f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:14 +0000
Subject: [PATCH 07/45] fix: correlation_direct without second argument mixed
 the components

---
 VolterraBasis/correlation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/correlation.py b/VolterraBasis/correlation.py
index 9b4eaed..bfb7d78 100644
--- a/VolterraBasis/correlation.py
+++ b/VolterraBasis/correlation.py
@@ -63,10 +63,10 @@ def correlation_direct_ND(a, b=None, trunc=None):
     else:
         len_trunc = a.shape[-1]
     len_dat = a.shape[-1]
-    if b is None:
-        b = a
     # TODO: vérifier le type de l'array a et créer un array vide du même type
-    res = np.zeros((a.shape[0], b.shape[0], len_trunc))
+    res = np.zeros((a.shape[0], a.shape[0] if b is None else b.shape[0], len_trunc))
+    if b is None:  # All the pairs of components, with the same convention than correlation_ND
+        a, b = a[np.newaxis, ...], a[:, np.newaxis, ...]
     res[:, :, 0] = (a * b).sum(axis=-1) / len_dat
     for n in range(1, len_trunc):
         res[:, :, n] = (a[..., :-n] * b[..., n:]).sum(axis=-1) / (len_dat - n)
-- 
2.43.0


From 098752272758ae8d3bb9315e766be9e55386ad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:14 +0000
Subject: [PATCH 08/45] fix: compute_noise summed the mean force over the
 components of the observable

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 249959c..0af3fdf 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -159,7 +159,7 @@ class ModelBase(object):
         E_force, E, _ = self.basis_vector(xva)
         if self.rank_projection:
             E = matmulPrange(self.P_range, E)
-        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis", "dim_x"])
+        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis"])
         if self.method in ["rect", "rectangular", "second_kind_rect"] or self.method is None:
             memory = memory_rect(self.kernel[:trunc_kernel], E, dt)
         elif self.method == "trapz" or self.method == "second_kind_trapz":
-- 
2.43.0


From 1cc76463d0de993c9f1c2c1f2cf64a2b13968493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:14 +0000
Subject: [PATCH 09/45] fix: laplace_transform_kernel looked for a coordinate
 that does not exist

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 0af3fdf..463b460 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -359,7 +359,7 @@ class ModelBase(object):
         s_range = np.linspace(s_start, s_end, n_points)
         laplace = np.zeros((n_points, self.kernel.shape[1], self.kernel.shape[2]))
         for n, s in enumerate(s_range):
-            laplace[n, :, :] = simpson(np.einsum("i,ijk-> ijk", np.exp(-s * self.kernel["time"][:, 0]), self.kernel), self.kernel["time"][:, 0], axis=0)
+            laplace[n, :, :] = simpson(np.einsum("i,ijk-> ijk", np.exp(-s * self.kernel["time_kernel"]), self.kernel), self.kernel["time_kernel"], axis=0)
         return s_range, laplace
 
     def save_model(self):
-- 
2.43.0


From b7bd27b9e253509f243317793c2871b62a1d9084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:14 +0000
Subject: [PATCH 10/45] fix: compute_gram_kernel failed when the basis is
 projected on its range

---
 VolterraBasis/gle_estimation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index a25d0be..c64243d 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -211,7 +211,9 @@ class Estimator_gle(object):
             print("Calculate kernel gram...")
         self.model.gram_kernel = self.loop_over_trajs(self._compute_gram, self.model, gram_type="kernel")[0]
         if self.model.rank_projection:
-            self.model.gram_kernel = np.einsum("lj,jk,mk->lm", self.model.P_range, self.gram_kernel, self.model.P_range)
+            P_range = self.model.P_range
+            P_range_transpose = P_range.rename({"dim_basis_old": "dim_basis_old'", "dim_basis": "dim_basis'"})
+            self.model.gram_kernel = xr.dot(P_range, self.model.gram_kernel.rename({"dim_basis": "dim_basis_old", "dim_basis'": "dim_basis_old'"}), P_range_transpose)
         return self.model
 
     def compute_effective_mass(self):
-- 
2.43.0


From b7477f8e40df26d78f6459828c8d741cbf53dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:14 +0000
Subject: [PATCH 11/45] fix: compute_kernel before compute_corrs did not raise
 the intended exception

---
 VolterraBasis/gle_estimation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index c64243d..8727166 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -61,6 +61,8 @@ class Estimator_gle(object):
 
         self.data_describe = None
 
+        self.bkdxcorrw = self.dotbkdxcorrw = self.bkbkcorrw = self.dotbkbkcorrw = None
+
         self._do_check(xva_arg)  # Do some check on the trajectories
 
         # Save trajectory properties
-- 
2.43.0


From eebba68e82668bd4a0b3e980b91d2f7a24ef9e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:44 +0000
Subject: [PATCH 12/45] fix: midpoint inversion took the correlation one time
 step too early

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index edc5701..33b2552 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -151,7 +151,7 @@ subroutine kernel_first_kind_midpoint(lenTraj, dim_basis,dim_x, kernel,  B, DxB,
   kernel(0,:,:)=-1*matmul(invB0,DxB(:,:,1))
 
   do i=1,(lenTraj-1)/2 !! for i in range(1, lenTraj):
-     call midpoint_integral(num,2*dt,i,B(:,:,0:2*i),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
+     call midpoint_integral(num,2*dt,i,B(:,:,1:2*i+1),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
      kernel(i,:,:)=-1*matmul(invB0,num+DxB(:,:,2*i+1))
   end do
 
-- 
2.43.0


From d8ebe37938f19c6b4c52d73ceab781342d26af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:44 +0000
Subject: [PATCH 13/45] fix: midpoint inversion gave half of the kernel at time
 zero

---
 VolterraBasis/fkernel.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 33b2552..3233be3 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -155,6 +155,7 @@ subroutine kernel_first_kind_midpoint(lenTraj, dim_basis,dim_x, kernel,  B, DxB,
      kernel(i,:,:)=-1*matmul(invB0,num+DxB(:,:,2*i+1))
   end do
 
+  kernel(0,:,:)=2*kernel(0,:,:) ! The first interval is only half of the others
 
 end subroutine kernel_first_kind_midpoint
 
-- 
2.43.0


From 01b70dc40afe94a8683325b78b4788ac24238011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:44 +0000
Subject: [PATCH 14/45] fix: flux_from_volterra used the transpose of the force
 and a shifted memory integral

---
 VolterraBasis/models.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 463b460..8a92228 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -332,16 +332,21 @@ class ModelBase(object):
             kernel = np.asarray(kernel)
         if trunc_ind is not None:
             kernel = kernel[:trunc_ind, :, :]
-        force_term = np.matmul(force_coeff, corrs_force)
-        res_int = np.zeros((corrs_kernel.shape[-1], corrs_kernel.shape[1], kernel.shape[-1]))
+        force_term = np.einsum("ijt,jk->ikt", corrs_force, force_coeff)
+        res_int = np.zeros((corrs_kernel.shape[-1], corrs_kernel.shape[0], kernel.shape[-1]))
         for n in range(1, corrs_kernel.shape[-1]):
-            max_len = min(n, kernel.shape[0])
+            max_len = min(n, kernel.shape[0] - 1)
+            corrs_n, kernel_n = corrs_kernel[:, :, n - max_len : n + 1], kernel[: max_len + 1, :, :]
+            last_term = corrs_n[:, :, 0] @ kernel_n[-1]  # The last point is not included in the integral routines
             if method == "rect":
-                res_int[n, :] = -1 * rect_integral(self.dt, corrs_kernel[:, :, n - max_len : n], kernel[:max_len, :, :])
+                res_int[n, :] = -1 * rect_integral(self.dt, corrs_n, kernel_n)
             elif method == "trapz":
-                res_int[n, :] = -1 * trapz_integral(self.dt, corrs_kernel[:, :, n - max_len : n], kernel[:max_len, :, :])
+                res_int[n, :] = -1 * (trapz_integral(self.dt, corrs_n, kernel_n) + 0.5 * self.dt * last_term)
             elif method == "simpson":
-                res_int[n, :] = -1 * simpson_integral(self.dt, corrs_kernel[:, :, n - max_len : n], kernel[:max_len, :, :])
+                if max_len < 2:  # Not enough points
+                    res_int[n, :] = -1 * (trapz_integral(self.dt, corrs_n, kernel_n) + 0.5 * self.dt * last_term)
+                else:
+                    res_int[n, :] = -1 * (simpson_integral(self.dt, corrs_n, kernel_n) + self.dt / 3.0 * last_term)
 
         return force_term, res_int
 
-- 
2.43.0


From 29edf17a3269ce8d4ad64c7103fe2665e0495a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 15/45] fix: compute_kernel read outside of too short
 correlation functions

---
 VolterraBasis/gle_estimation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 8727166..20baef4 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -307,6 +307,8 @@ class Estimator_gle(object):
             raise Exception("Need correlation functions to compute the kernel.")
         if self.verbose:
             print("Compute memory kernel using {} method".format(method))
+        if self.bkbkcorrw.shape[-1] < (4 if method == "midpoint_w_richardson" else 2):
+            raise ValueError("Not enough points in the correlation functions to compute the kernel, increase trunc.")
         time = np.arange(self.model.trunc_ind) * self.dt
         time_ker = time - time[0]  # Set zero time
         self.model.method = method  # Save used method
-- 
2.43.0


From b740c182b8cdc3f7c1dd77d4c5d5b00c67ee234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 16/45] fix: load_model lost the method, the masses and the
 kernel gram matrix, that could prevent to save

---
 VolterraBasis/models.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 8a92228..c2a5271 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -377,8 +377,12 @@ class ModelBase(object):
             coeffs.update({"force_coeff": self.force_coeff.rename({"dim_basis": "dim_basis_force"})})
         if self.gram_force is not None:
             coeffs.update({"gram_force": self.gram_force.rename({"dim_basis": "dim_basis_force", "dim_basis'": "dim_basis_force'"})})
+        if self.gram_kernel is not None:
+            coeffs.update({"gram_kernel": self.gram_kernel.rename({"dim_basis": "dim_basis_gram", "dim_basis'": "dim_basis_gram'"})})
+        if self.inv_mass_coeff is not None:
+            coeffs.update({"inv_mass_coeff": self.inv_mass_coeff.rename({"dim_basis": "dim_basis_mass"})})
         for key, dat in self.__dict__.items():
-            if key not in coeffs.attrs and key not in ["basis", "force_coeff", "gram_force", "N_basis_elt_force", "N_basis_elt_kernel"]:  # Eclude some vaiable
+            if key not in coeffs.attrs and key not in ["basis", "force_coeff", "gram_force", "gram_kernel", "inv_mass_coeff", "N_basis_elt_force", "N_basis_elt_kernel"]:  # Eclude some vaiable
                 if dat is not None:
                     coeffs.update({key: dat})
 
@@ -396,13 +400,19 @@ class ModelBase(object):
             cls_attrs[key] = value
         model = cls(basis, **cls_attrs)
 
-        for key in ["force_coeff", "kernel", "rank_projection", "P_range", "gram_force"]:
+        for key in ["force_coeff", "kernel", "rank_projection", "P_range", "gram_force", "gram_kernel", "inv_mass_coeff", "eff_mass"]:
             if key in coeffs:
                 setattr(model, key, coeffs[key])
+        if "method" in coeffs:
+            model.method = str(coeffs["method"].values)
         if model.force_coeff is not None:
             model.force_coeff = model.force_coeff.rename({"dim_basis_force": "dim_basis"})
         if model.gram_force is not None:
             model.gram_force = model.gram_force.rename({"dim_basis_force": "dim_basis", "dim_basis_force'": "dim_basis'"})
+        if model.gram_kernel is not None:
+            model.gram_kernel = model.gram_kernel.rename({"dim_basis_gram": "dim_basis", "dim_basis_gram'": "dim_basis'"})
+        if model.inv_mass_coeff is not None:
+            model.inv_mass_coeff = model.inv_mass_coeff.rename({"dim_basis_mass": "dim_basis"})
 
         return model
 
-- 
2.43.0


From 0151174a7a1cca1f0e2234af138e81b8ef3e38bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 17/45] fix: load_model modified the attributes of the dataset
 it loads

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index c2a5271..5e5ffc2 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -395,7 +395,7 @@ class ModelBase(object):
         """
         # A partir des attibuts du DataSet construire un dictionnaire des arguments à donner
         # kwargs = .. dim_x, dim_obs, trunc_ind, L_obs, describe_data
-        cls_attrs = coeffs.attrs
+        cls_attrs = dict(coeffs.attrs)
         for key, value in kwargs.items():
             cls_attrs[key] = value
         model = cls(basis, **cls_attrs)
-- 
2.43.0


From 09fbf105418977caad998ea1cfea377a48f00c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 18/45] fix: Integrator_gle failed without a model or with a
 truncated kernel

---
 VolterraBasis/gle_integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index 5b69dae..a5c0a5e 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -223,7 +223,7 @@ class Integrator_gle(object):
 
         self.trunc_kernel = self.kernel.shape[0]
 
-        self.noise_generator = ColoredNoiseGenerator(kernel_noise, gle_model.kernel["time_kernel"].to_numpy(), rng=rng)
+        self.noise_generator = ColoredNoiseGenerator(kernel_noise, np.arange(self.trunc_kernel) * self.dt, rng=rng)
 
     def _copy_from_estimator(self, gle_model, trunc_kernel=None):
         """
-- 
2.43.0


From 5042a8e94b5ba1cc06bc6ea10d369d8f5ffbb3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 19/45] fix: covariance of KarhunenLoeveNoiseGenerator was not
 the requested one

---
 VolterraBasis/gle_integrate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index a5c0a5e..a01dd56 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -104,7 +104,7 @@ class KarhunenLoeveNoiseGenerator:
 
         self.lenght = np.min(kernel.shape)
 
-        self.eigvals, self.eigvect = np.linalg.eig(self.kernel)
+        self.eigvals, self.eigvect = np.linalg.eigh(self.kernel)  # A covariance matrix is symmetric
 
     def generate(self, size=None):
         if size is None:
@@ -114,8 +114,8 @@ class KarhunenLoeveNoiseGenerator:
             # TODO: Use stationary assumption that kernel does not evolve anymore to generate more noise
             # TODO: Use periodic assumption
         white_noise = self.rng(size=self.lenght)
-        colored_noise = self.eigvect @ np.diag(np.sqrt(self.eigvals)) @ white_noise
-        return colored_noise[:size] * np.sqrt(self.dt)
+        colored_noise = self.eigvect @ np.diag(np.sqrt(np.maximum(self.eigvals, 0.0))) @ white_noise
+        return colored_noise[:size]
 
 
 class PosColoredNoiseGenerator:
-- 
2.43.0


From fba39eb5f9cd821fbc06ca545e7462cf60dacfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 20/45] fix: prony fit failed if N_keep is not smaller than the
 number of singular values

---
 VolterraBasis/fit_prony.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index caadf4d..56e316f 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -42,7 +42,8 @@ def ldl_hankel(y, n=None, thres=None, N_keep=None):
     else:
         N = min(N_keep, N_rank)  # Number of singular values to keep, given from rank of Hankel matrix or from input
         # Update the thresold from highest non keeped singular value
-        thres = s_svd[N]
+        if N < s_svd.shape[0]:
+            thres = s_svd[N]
     N = min(N, n)  # Limit the number of vector
     # Keep only the N highest singular value
     # print("Prony: Singular values. Value lower than thres are considered zero.")
@@ -139,7 +140,8 @@ def prony_inspect_data(data, thres=None, N_keep=None):
     else:
         N = min(N_keep, N_rank)  # Number of singular values to keep, given from rank of Hankel matrix or from input
         # Update the thresold from highest non keeped singular value
-        thres = s_svd[N]
+        if N < s_svd.shape[0]:
+            thres = s_svd[N]
     N = min(N, n)  # Limit the number of vector
     # Keep only the N highest singular value
     print("Prony: Singular values. Value lower than thres are considered zero.")
-- 
2.43.0


From 1a735ade2f1c00eea94d7bbe4b3156e6a1f6e6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 21/45] fix: 1D finite elements modified their input and missed
 elements of unsorted meshes

---
 VolterraBasis/basis/_fem_features.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index cbae7d9..b730cd9 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -19,10 +19,9 @@ class ElementFinder:
         self.dim = mesh.dim()
         # Transform mesh to triangular version if needed
         if self.dim == 1:
-            self.max_point = np.max(mesh.p)  # To avoid strict < in np.digitize
-            ix = np.argsort(mesh.p)
-            self.bins = mesh.p[0, ix[0]]
-            self.bins_idx = mesh.t[0]
+            left_points = np.min(mesh.p[0, mesh.t], axis=0)  # Elements are not necessarily sorted
+            self.bins_idx = np.argsort(left_points)
+            self.bins = left_points[self.bins_idx]
             self.find = self.find_element_1D
         # elif self.dim == 2:
         #     self.find = self.find_element_2D
@@ -40,9 +39,7 @@ class ElementFinder:
         """
         Assuming X is nsamples x 1
         """
-        maxix = X[:, 0] == self.max_point
-        X[maxix, 0] = X[maxix, 0] - 1e-10  # special case in np.digitize
-        return np.argmax((np.digitize(X[:, 0], self.bins) - 1)[:, None] == self.bins_idx, axis=1)
+        return self.bins_idx[np.maximum(np.digitize(X[:, 0], self.bins) - 1, 0)]
 
     def find_element_2D(self, X):
         return self.mesh_finder(X[:, 0], X[:, 1])
-- 
2.43.0


From fdcb959a0cf01a3066d61e613211898f259f75bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 22/45] fix: gradient of finite elements was scrambled for
 dimensions higher than 1

---
 VolterraBasis/basis/_fem_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index b730cd9..17c4e1e 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -120,7 +120,7 @@ class FEMScalarFeatures(TransformerMixin):
         pts = self.basis_fem.mapping.invF(x[:, :, np.newaxis], tind=cells)
         phis = np.array([self.basis_fem.elem.gbasis(self.basis_fem.mapping, pts, k, tind=cells)[0].grad.transpose([1, 2, 0]) for k in range(self.basis_fem.Nbfun)])  # TODO: vérifier la shape et en extraire les diverses dimensions
         return sparse.COO(
-            (np.tile(np.arange(nsamples), dim * self.basis_fem.Nbfun), np.tile(self.basis_fem.element_dofs[:, cells].flatten(), dim), np.repeat(np.arange(dim), nsamples * self.basis_fem.Nbfun)), np.ravel(phis), shape=(nsamples, self.n_output_features_, dim)  # Le dernier array doit être 000011111222
+            (np.tile(np.repeat(np.arange(nsamples), dim), self.basis_fem.Nbfun), np.repeat(self.basis_fem.element_dofs[:, cells].flatten(), dim), np.tile(np.arange(dim), nsamples * self.basis_fem.Nbfun)), np.ravel(phis), shape=(nsamples, self.n_output_features_, dim)  # Same order than phis, the dimension is the fastest index
         ).todense()  # .todense(): Temporary workaround to the absence if einsum in sparse library
 
     def hessian(self, X):  # Only for Elementglobal
-- 
2.43.0


From 22f274a26e616e523cd6578460c74a62fcf6a61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 23/45] fix: finite elements could not be used in dimension 3

---
 VolterraBasis/basis/_fem_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 17c4e1e..d82cdcd 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -60,7 +60,7 @@ class ElementFinder:
         """
         return (X[0] >= -np.finfo(X.dtype).eps) * (X[1] >= -np.finfo(X.dtype).eps) * (1 - X[0] - X[1] >= -np.finfo(X.dtype).eps)
 
-    def inside_3D(X):
+    def inside_3D(self, X):
         """
         Say which point are inside the element
         """
-- 
2.43.0


From 57af3bbabc5ebbbd5988be18c2aa8dc2e2203efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 24/45] fix: finite elements used a wrong element when the
 right one is not among the five nearest

---
 VolterraBasis/basis/_fem_features.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index d82cdcd..40acffc 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -45,12 +45,16 @@ class ElementFinder:
         return self.mesh_finder(X[:, 0], X[:, 1])
 
     def find_element_ND(self, X, _search_all=False):
-        tree_query = self.tree.query(X, 5)[1]
+        tree_query = self.tree.query(X, np.arange(1, min(5, self.tree.n) + 1))[1]
         element_inds = np.empty((X.shape[0],), dtype=int)
         for n, point in enumerate(X):  # Try to avoid loop
             i_e = tree_query[n, :]
             X_loc = self.mapping.invF((point.T)[:, None, None], tind=i_e)
             inside = self.inside(X_loc)
+            if not np.any(inside):  # The element is not one of the nearest, search all of them
+                inside_all = self.inside(self.mapping.invF((point.T)[:, None, None], tind=np.arange(self.tree.n)))
+                if np.any(inside_all):
+                    i_e, inside = np.arange(self.tree.n), inside_all
             element_inds[n] = i_e[np.argmax(inside, axis=0)]
         return element_inds
 
-- 
2.43.0


From 2f3e2342d4bb15ef6591788c3e19103883bd3bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:45 +0000
Subject: [PATCH 25/45] fix: derivative of the basis of the hybrid model was
 summed over time

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 5e5ffc2..876989e 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -644,7 +644,7 @@ class Pos_gle_hybrid(Pos_gle):
             # return bk.reshape(-1, self.N_basis_elt_kernel - 1, 1)
         elif compute_for == "corrs":
             E = xr.concat([xva["v"].rename({"dim_x": "dim_basis"}), bk], dim="dim_basis")
-            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized"), xva["v"])
+            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized"), xva["v"], dims=["dim_x"])
             dE = xr.concat([xva["a"].rename({"dim_x": "dim_basis"}), dbk], dim="dim_basis")  # To test
             return bk, E, dE
         else:
-- 
2.43.0


From eff87cbf52c51e8783a906aa7ccae9ba2b365e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:53 +0000
Subject: [PATCH 26/45] fix: colored noise lost its variance near the ends and
 for trajectories shorter than the kernel

---
 VolterraBasis/gle_integrate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index a01dd56..a8de8ff 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -56,11 +56,11 @@ class ColoredNoiseGenerator:
             self.sqk[:, d, d] = ift(sqk_ft, w, t_sym).real
 
     def generate(self, size):
-        colored_noise = np.empty((max(size, self.sqk.shape[0]), self.dim))
+        colored_noise = np.empty((size, self.dim))
         for d in range(self.dim):
-            white_noise = self.rng(size=size)
-            colored_noise[:, d] = np.convolve(white_noise, self.sqk[:, d, d], mode="same")
-        return colored_noise[:size] * np.sqrt(self.dt)
+            white_noise = self.rng(size=size + self.sqk.shape[0] - 1)  # All the points have the same variance
+            colored_noise[:, d] = np.convolve(white_noise, self.sqk[:, d, d], mode="valid")
+        return colored_noise * np.sqrt(self.dt)
 
 
 class KarhunenLoeveNoiseGenerator:
-- 
2.43.0


From 12f1e7d4357129a218926a77cfc61dc72a623661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:54 +0000
Subject: [PATCH 27/45] fix: models loaded from a file could not evaluate their
 kernel, dim_x was not a Python integer

---
 VolterraBasis/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 876989e..f62229b 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -53,8 +53,8 @@ class ModelBase(object):
         """
         self.L_obs = L_obs
 
-        self.dim_x = dim_x
-        self.dim_obs = dim_obs
+        self.dim_x = int(dim_x)  # Can be a numpy integer if loaded from a file
+        self.dim_obs = int(dim_obs)
 
         self.dt = dt
         self.trunc_ind = int(trunc_ind)
-- 
2.43.0


From c330f1831ee438a0a34fb5f56ee1b106cb70fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:45 +0000
Subject: [PATCH 28/45] fix: prony fit failed for data with alternating sign

---
 VolterraBasis/fit_prony.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index 56e316f..defac9d 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -105,7 +105,7 @@ def clean_eigenvalues(J, dt, remove=True, debug=False):
     # We need to duplicate real eigenvalue with negative value
     dupl = np.logical_and(np.abs(np.imag(lamb)) < 1e-15, np.real(lamb < 0))
     n_dupl = len(lamb[dupl])
-    log_lamp = np.log(lamb) / dt
+    log_lamp = np.log(lamb.astype(complex)) / dt  # Eigenvalues could be all real, with negative ones
     # add eigenvector
     new_vect = np.zeros((len(lamb) + n_dupl, len(lamb) + n_dupl), dtype=complex)
     new_vect[: len(lamb), : len(lamb)] = vect
-- 
2.43.0


From 4d2765cba53e623c07a564732301d7bec4308b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:04 +0000
Subject: [PATCH 29/45] fix: evolve_volterra wrote outside of its result for a
 null length

---
 VolterraBasis/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index f62229b..69d02d0 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -746,6 +746,9 @@ class Pos_gle_overdamped(ModelBase):
         if G0.shape[0] != self.kernel.shape[-1]:
             raise ValueError("Wrong shape for initial value")
 
+        if lenTraj < 1:
+            raise ValueError("Length of the time evolution should be at least 1")
+
         if trunc_ind is None or trunc_ind <= 0:
             trunc_ind = self.kernel.shape[0]
 
-- 
2.43.0


From 58b6ec889e79cad1d6a9a10909a53f56eff7f8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:04 +0000
Subject: [PATCH 30/45] fix: memory_trapz read outside of an empty kernel

---
 VolterraBasis/fkernel.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 3233be3..58913b0 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -328,7 +328,8 @@ subroutine memory_trapz(lenTraj,len_mem, dim_basis, dim_x, memory, kernel, E, dt
   double precision,intent(in)::dt
   integer::i,j
 
-  memory(0,:)=0.
+  memory(:,:)=0.
+  if(len_mem<0) return ! Empty kernel
 
   do i=1,lenTraj !! for i in range(1, lenTraj):
     memory(i,:)=-0.5*dt*matmul(E(i,:),kernel(0,:,:))
-- 
2.43.0


From 013545ef1333f41201b0527cbfa1e727b6f66554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:57 +0000
Subject: [PATCH 31/45] fix: prefix of the saved files was ignored

---
 VolterraBasis/gle_estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 20baef4..53a8d8d 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -288,7 +288,7 @@ class Estimator_gle(object):
             if isinstance(self.dotbkbkcorrw, xr.DataArray):
                 self.dotbkbkcorrw = xr.dot(P_range_tranpose, P_range, self.dotbkbkcorrw.rename({"dim_basis": "dim_basis_old", "dim_basis'": "dim_basis_old'"}))
         if self.saveall:
-            xr.Dataset({"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw, "dotbkbk": self.dotbkbkcorrw, "dotbkdx": self.dotbkdxcorrw}, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}).to_netcdf(self.corrsfile)
+            xr.Dataset({"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw, "dotbkbk": self.dotbkbkcorrw, "dotbkdx": self.dotbkdxcorrw}, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}).to_netcdf(self.prefix + self.corrsfile)
         return self.model
 
     def compute_kernel(self, method="rectangular", k0=None):
@@ -350,7 +350,7 @@ class Estimator_gle(object):
 
         self.model.kernel = xr.DataArray(kernel, dims=("time_kernel", "dim_basis", self.bkdxcorrw.dims[1]), coords={"time_kernel": time_ker})
         if self.saveall:  # TODO: change to xarray save
-            xr.Dataset({"kernel": self.model.kernel}).to_netcdf(self.kernelfile)
+            xr.Dataset({"kernel": self.model.kernel}).to_netcdf(self.prefix + self.kernelfile)
         return self.model
 
     def check_volterra_inversion(self, return_diff=False):
-- 
2.43.0


From 72551d0f260806449cfaea3c5d19f87bfef2304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:55 +0000
Subject: [PATCH 32/45] fix: models that need the constant did not restore it
 in combined bases

---
 VolterraBasis/basis/_basis_features.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index bffd04f..2803c44 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -237,7 +237,15 @@ class FeaturesCombiner(TransformerMixin):
 
     def __init__(self, *basis):
         self.basis_set = basis
-        self.const_removed = np.any([b.const_removed for b in self.basis_set])  # Check if one of the basis set have the constant removed
+
+    @property
+    def const_removed(self):
+        return np.any([b.const_removed for b in self.basis_set])  # Check if one of the basis set have the constant removed
+
+    @const_removed.setter
+    def const_removed(self, value):
+        for b in self.basis_set:
+            b.const_removed = value
 
     def fit(self, describe_result):
         if isinstance(describe_result, np.ndarray):
-- 
2.43.0


From 0f1b2b0f49a93f1a6b6b056d4fffce97cee34f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:15 +0000
Subject: [PATCH 33/45] fix: correlations without the derivative could not be
 saved

compute_corrs(second_order_method=False) raised when saveall is set (the
default), and the second kind methods failed on it with an unrelated error.
---
 VolterraBasis/gle_estimation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 53a8d8d..3e2fb74 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -288,7 +288,10 @@ class Estimator_gle(object):
             if isinstance(self.dotbkbkcorrw, xr.DataArray):
                 self.dotbkbkcorrw = xr.dot(P_range_tranpose, P_range, self.dotbkbkcorrw.rename({"dim_basis": "dim_basis_old", "dim_basis'": "dim_basis_old'"}))
         if self.saveall:
-            xr.Dataset({"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw, "dotbkbk": self.dotbkbkcorrw, "dotbkdx": self.dotbkdxcorrw}, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}).to_netcdf(self.prefix + self.corrsfile)
+            corrs = {"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw}
+            if isinstance(self.dotbkbkcorrw, xr.DataArray):  # Else the correlations with the derivative are known only at time zero
+                corrs.update({"dotbkbk": self.dotbkbkcorrw, "dotbkdx": self.dotbkdxcorrw})
+            xr.Dataset(corrs, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}).to_netcdf(self.prefix + self.corrsfile)
         return self.model
 
     def compute_kernel(self, method="rectangular", k0=None):
@@ -338,11 +341,11 @@ class Estimator_gle(object):
             kernel = np.insert(kernel, 0, k0, axis=0)
             time_ker = time_ker[:-1]
         elif method == "second_kind_rect":
-            if self.dotbkdxcorrw is None or self.dotbkbkcorrw is None:
+            if self.dotbkdxcorrw is None or not isinstance(self.dotbkbkcorrw, xr.DataArray):
                 raise Exception("Need correlation with derivative functions to compute the kernel using this method, please use other method.")
             kernel = kernel_second_kind_rect(k0, self.bkbkcorrw.isel(time_trunc=0).to_numpy(), self.dotbkbkcorrw.to_numpy(), self.dotbkdxcorrw.to_numpy(), self.dt)
         elif method == "second_kind_trapz":
-            if self.dotbkdxcorrw is None or self.dotbkbkcorrw is None:
+            if self.dotbkdxcorrw is None or not isinstance(self.dotbkbkcorrw, xr.DataArray):
                 raise Exception("Need correlation with derivative functions to compute the kernel using this method, please use other method.")
             kernel = kernel_second_kind_trapz(k0, self.bkbkcorrw.isel(time_trunc=0).to_numpy(), self.dotbkbkcorrw.to_numpy(), self.dotbkdxcorrw.to_numpy(), self.dt)
         else:
-- 
2.43.0


From ef2f59671661b8026afed037aac90cac2ce76fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:56 +0000
Subject: [PATCH 34/45] fix: a refused compute_kernel renamed the method of the
 kernel in place

The model kept its previous kernel but declared the refused method, so that
compute_noise used a midpoint kernel as if it had the time step of the data.
---
 VolterraBasis/gle_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 3e2fb74..61a1a43 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -314,7 +314,6 @@ class Estimator_gle(object):
             raise ValueError("Not enough points in the correlation functions to compute the kernel, increase trunc.")
         time = np.arange(self.model.trunc_ind) * self.dt
         time_ker = time - time[0]  # Set zero time
-        self.model.method = method  # Save used method
         if self.verbose:
             print("Use dt:", self.dt)
         if k0 is None and method in ["trapz", "second_kind_rect", "second_kind_trapz"]:  # Then we should compute initial value from time derivative at zero
@@ -351,6 +350,7 @@ class Estimator_gle(object):
         else:
             raise Exception("Method for volterra inversion is not in  {rectangular, midpoint, midpoint_w_richardson,trapz,second_kind_rect,second_kind_trapz}")
 
+        self.model.method = method  # Save used method
         self.model.kernel = xr.DataArray(kernel, dims=("time_kernel", "dim_basis", self.bkdxcorrw.dims[1]), coords={"time_kernel": time_ker})
         if self.saveall:  # TODO: change to xarray save
             xr.Dataset({"kernel": self.model.kernel}).to_netcdf(self.prefix + self.kernelfile)
-- 
2.43.0


From 123a13076df01479674a249cf05adfc246038bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 35/45] fix: simplifying the outline of elongated data could
 leave the data outside

When the edges next to the smallest one meet on the other side (or are
parallel), the mesh did not cover the data any more, or could not be built.
---
 VolterraBasis/basis/_mesh_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_mesh_utils.py b/VolterraBasis/basis/_mesh_utils.py
index 439d147..7b8f500 100644
--- a/VolterraBasis/basis/_mesh_utils.py
+++ b/VolterraBasis/basis/_mesh_utils.py
@@ -103,7 +103,10 @@ def remove_one_point(boundary_vertices, ratio_limit=0.01, verbose=False):
         post_a = boundary_vertices[(min_arete + 1) % len(boundary_vertices)]
         post_b = boundary_vertices[(min_arete + 2) % len(boundary_vertices)]
 
-        boundary_vertices[min_arete, :] = get_intersect(pre_a, pre_b, post_a, post_b)
+        new_point = np.asarray(get_intersect(pre_a, pre_b, post_a, post_b))
+        if not np.all(np.isfinite(new_point)) or np.dot(new_point - pre_b, pre_b - pre_a) < 0 or np.dot(post_a - new_point, post_b - post_a) < 0:
+            return boundary_vertices, False  # The adjacent edges meet on the other side, that would not enclose the same points
+        boundary_vertices[min_arete, :] = new_point
         return np.delete(boundary_vertices, (min_arete + 1) % len(boundary_vertices), axis=0), True
     else:
         return boundary_vertices, False
-- 
2.43.0


From 028d672609f0e7b7d4c7646a5e491d61320e5dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:44 +0000
Subject: [PATCH 36/45] fix: compute_1d_fe ignored the rule given for the bins

Any string was replaced by "auto", while the documentation says that it is
passed to numpy.
---
 VolterraBasis/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/__init__.py b/VolterraBasis/__init__.py
index 654cf73..cf95052 100644
--- a/VolterraBasis/__init__.py
+++ b/VolterraBasis/__init__.py
@@ -185,7 +185,7 @@ def compute_1d_fe(xva_list, bins=150, kT=2.494, hist=False):
         If False return the free energy else return the histogram
     """
     if isinstance(bins, str):
-        x_bins = np.histogram_bin_edges(np.concatenate([xva["x"].data for xva in xva_list], axis=0), bins="auto")
+        x_bins = np.histogram_bin_edges(np.concatenate([xva["x"].data for xva in xva_list], axis=0), bins=bins)
     elif isinstance(bins, int):
         # # D'abord on obtient les bins
         min_x = np.min([xva["x"].min("time") for xva in xva_list])
-- 
2.43.0


From 2686577e9d48acc70318060ad5cc9ed3ccf02f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:18 +0000
Subject: [PATCH 37/45] fix: points on the faces of finite elements were
 attributed to elements that do not contain them

Because of rounding a point on a face can be slightly outside of all the
elements, the nearest one by its centre, used then, does not contain it.
---
 VolterraBasis/basis/_fem_features.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 40acffc..d9ec4a5 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -51,11 +51,11 @@ class ElementFinder:
             i_e = tree_query[n, :]
             X_loc = self.mapping.invF((point.T)[:, None, None], tind=i_e)
             inside = self.inside(X_loc)
-            if not np.any(inside):  # The element is not one of the nearest, search all of them
-                inside_all = self.inside(self.mapping.invF((point.T)[:, None, None], tind=np.arange(self.tree.n)))
-                if np.any(inside_all):
-                    i_e, inside = np.arange(self.tree.n), inside_all
-            element_inds[n] = i_e[np.argmax(inside, axis=0)]
+            if np.any(inside):
+                element_inds[n] = i_e[np.argmax(inside, axis=0)]
+            else:  # The element is not one of the nearest, or the point is on a face: search the element it is least outside of
+                X_all = self.mapping.invF((point.T)[:, None, None], tind=np.arange(self.tree.n))
+                element_inds[n] = np.argmax(np.minimum(np.min(X_all, axis=0), 1 - np.sum(X_all, axis=0)))
         return element_inds
 
     def inside_2D(self, X):  # Do something more general from Refdom?
-- 
2.43.0


From fc4d9de3dc56e3c9955d87907537061f53df7ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:39 +0000
Subject: [PATCH 38/45] fix: truncate correlations after a lag, not after an
 absolute time

The number of lags was counted from the absolute times of the first
trajectory. A trajectory that does not start at time zero (the second half of
a longer one, for instance) lost its first lags, down to none at all, and
trajectories that start later hid their real length.
---
 VolterraBasis/gle_estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 61a1a43..8ea644d 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -127,14 +127,14 @@ class Estimator_gle(object):
                     raise Exception("Please provide dataset that include {} as variable .".format(L_obs))
 
     def _compute_trunc_ind(self, trunc):
-        lastinds = np.array([xva["time"][-1] for xva in self.xva_list])
+        lastinds = np.array([xva["time"][-1] - xva["time"][0] for xva in self.xva_list])
         smallest = np.min(lastinds)
         if smallest < trunc:
             if self.verbose:
                 print("Warning: Found a trajectory shorter than " "the argument trunc. Override.")
             trunc = smallest
         # Find index of the time truncation
-        self.trunc_ind = (self.xva_list[0]["time"] <= trunc).sum().data
+        self.trunc_ind = (self.xva_list[0]["time"] - self.xva_list[0]["time"][0] <= trunc).sum().data
         if self.verbose:
             print("Trajectories are truncated at lenght {} for dynamic analysis".format(self.trunc_ind))
         return self.trunc_ind
-- 
2.43.0


From e68ff123783229982467f6417fa06a3ae13e8709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:45 +0000
Subject: [PATCH 39/45] fix: evaluate fitted kernels at a single time and at a
 column of times

prony_series_eval and prony_series_kernel_eval reduced a single time to a
zero-dimensional array, whose shape they then indexed; memory_kernel_eval
could not take the (n, 1) array of times the estimators return.
---
 VolterraBasis/fit_memory.py | 1 +
 VolterraBasis/fit_prony.py  | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/fit_memory.py b/VolterraBasis/fit_memory.py
index 83d406e..acae5c8 100644
--- a/VolterraBasis/fit_memory.py
+++ b/VolterraBasis/fit_memory.py
@@ -178,6 +178,7 @@ def memory_kernel_eval(times, params, type=None):
         type, popt = params
     else:
         popt = params
+    times = np.asarray(times).ravel()
     nb_times = times.shape[0]
     dim_x = len(popt)
     dim_basis = len(popt[0])
diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index defac9d..39f45c9 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -191,7 +191,7 @@ def prony_series_eval(times, y0, A):
     A :
         Result of the prony fitting.
     """
-    times = np.asarray(times).squeeze()
+    times = np.asarray(times).ravel()
     nb_times = times.shape[0]
     fit = np.zeros((nb_times,))
     for i, t in enumerate(times.flatten()):  # TODO: Implement with linear system
@@ -238,13 +238,13 @@ def prony_series_kernel_eval(times, list_A):
     list_A:
         The result of fit_kernel
     """
-    times = np.asarray(times).squeeze()
+    times = np.asarray(times).ravel()
     nb_times = times.shape[0]
     dim_x = len(list_A)
     dim_basis = len(list_A[0])
     fit = np.zeros((nb_times, dim_basis, dim_x))
     for d in range(dim_x):
         for k in range(dim_basis):
-            for i, t in enumerate(times.squeeze()):
+            for i, t in enumerate(times):
                 fit[i, k, d] = list_A[d][k][0] * scipy.linalg.expm(t * list_A[d][k][1])[0, 0]
     return fit
-- 
2.43.0


From ff17d9e8a8c33f27c82e91a9ca5206043aab4624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:46 +0000
Subject: [PATCH 40/45] fix: refuse midpoint kernels, that are on a coarser
 grid, where the time step is used

---
 VolterraBasis/gle_estimation.py |  1 +
 VolterraBasis/gle_integrate.py  |  2 ++
 VolterraBasis/models.py         | 10 ++++++++++
 3 files changed, 13 insertions(+)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 8ea644d..a8119d6 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -369,6 +369,7 @@ class Estimator_gle(object):
         """
         if self.model.kernel is None:
             raise Exception("Kernel has not been computed.")
+        self.model._check_kernel_time_step()
         dt = self.dt
         res_int = np.zeros(self.bkdxcorrw.shape)
         for n in range(self.model.kernel.shape[0]):
diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index a8de8ff..f920526 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -230,6 +230,8 @@ class Integrator_gle(object):
         Copy everything from the estimator
         """
 
+        gle_model._check_kernel_time_step()
+
         self.basis = gle_model.basis
 
         if trunc_kernel is None:
diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 69d02d0..e7acff7 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -135,6 +135,13 @@ class ModelBase(object):
         """
         raise NotImplementedError
 
+    def _check_kernel_time_step(self):
+        """
+        The kernels of the midpoint methods are not known at each time step
+        """
+        if self.method in ["midpoint", "midpoint_w_richardson"]:
+            raise ValueError("Need the kernel at each time step, cannot use kernel computed with method {}".format(self.method))
+
     def compute_noise(self, xva, trunc_kernel=None, start_point=0, end_point=None):
         """
         From a trajectory get the noise.
@@ -327,6 +334,7 @@ class ModelBase(object):
         else:
             force_coeff = np.asarray(force_coeff)
         if kernel is None:
+            self._check_kernel_time_step()
             kernel = self.kernel.to_numpy()
         else:
             kernel = np.asarray(kernel)
@@ -749,6 +757,8 @@ class Pos_gle_overdamped(ModelBase):
         if lenTraj < 1:
             raise ValueError("Length of the time evolution should be at least 1")
 
+        self._check_kernel_time_step()
+
         if trunc_ind is None or trunc_ind <= 0:
             trunc_ind = self.kernel.shape[0]
 
-- 
2.43.0


From 63af72426dc89dba33444e5a17ddcbc6b3c09d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:46 +0000
Subject: [PATCH 41/45] fix: refuse unknown methods in evolve_volterra and
 flux_from_volterra

---
 VolterraBasis/models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index e7acff7..a03a71b 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -338,6 +338,8 @@ class ModelBase(object):
             kernel = self.kernel.to_numpy()
         else:
             kernel = np.asarray(kernel)
+        if method not in ["rect", "trapz", "simpson"]:
+            raise ValueError("Method for integration is not in {rect, trapz, simpson}")
         if trunc_ind is not None:
             kernel = kernel[:trunc_ind, :, :]
         force_term = np.einsum("ijt,jk->ikt", corrs_force, force_coeff)
@@ -771,6 +773,8 @@ class Pos_gle_overdamped(ModelBase):
             res = solve_ide_trapz(coeffs_ker, G0, coeffs_force, lenTraj, self.dt)
         elif method == "trapz_stab":
             res = solve_ide_trapz_stab(coeffs_ker, G0, coeffs_force, lenTraj, self.dt)
+        else:
+            raise ValueError("Method for time evolution is not in {rect, trapz, trapz_stab}")
         return np.arange(lenTraj) * self.dt, res
 
 
-- 
2.43.0


From ffe42ee2f73b9da0711a12f9e5baab3c73970e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:46 +0000
Subject: [PATCH 42/45] fix: accept iterators of trajectories and keep a list
 of our own

---
 VolterraBasis/gle_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index a8119d6..9a00916 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -109,7 +109,7 @@ class Estimator_gle(object):
             if isinstance(xva_arg, xr.Dataset):
                 self.xva_list = [xva_arg]
             else:
-                self.xva_list = xva_arg
+                self.xva_list = list(xva_arg)  # The collection can be an iterator, or be changed later
             for xva in self.xva_list:
                 if "time" not in xva.dims:
                     raise Exception("Time is not a coordinate. Please provide dataset with time, " "or an iterable collection (i.e. list) " "of dataset with time.")
-- 
2.43.0


From f4c41a9c03248e2de493a1090ed9b9af814f9ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:09 +0000
Subject: [PATCH 43/45] fix: leave the basis given by the user as it was when a
 model needs its constant

---
 VolterraBasis/models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index a03a71b..8300831 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 import xarray as xr
 import warnings
@@ -577,6 +578,7 @@ class Pos_gle_no_vel_basis(Pos_gle):
         self.N_basis_elt_force = self.N_basis_elt
         self.N_basis_elt_kernel = self.N_basis_elt
         if self.basis.const_removed:
+            self.basis = copy.deepcopy(self.basis)  # The basis of the user is left as it was
             self.basis.const_removed = False
             print("Warning: remove_const on basis function have been set to False.")
 
@@ -638,6 +640,7 @@ class Pos_gle_hybrid(Pos_gle):
         self.N_basis_elt_force = self.N_basis_elt
         self.N_basis_elt_kernel = self.N_basis_elt + 1
         if self.basis.const_removed:
+            self.basis = copy.deepcopy(self.basis)  # The basis of the user is left as it was
             self.basis.const_removed = False
             print("Warning: remove_const on basis function have been set to False.")
 
@@ -693,6 +696,7 @@ class Pos_gle_overdamped(ModelBase):
         self.N_basis_elt_force = self.N_basis_elt
         self.N_basis_elt_kernel = self.N_basis_elt
         if self.basis.const_removed:
+            self.basis = copy.deepcopy(self.basis)  # The basis of the user is left as it was
             self.basis.const_removed = False
             print("Warning: remove_const on basis function have been set to False.")
         self.rank_projection = rank_projection
-- 
2.43.0


From 4cbc850b4598e98afa7e1aa56a99eaaf52c144ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:03 +0000
Subject: [PATCH 44/45] fix: primitive of LinearFeatures for large integer
 positions

---
 VolterraBasis/basis/_basis_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index 2803c44..55bb431 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -48,7 +48,7 @@ class LinearFeatures(TransformerMixin):
     def antiderivative(self, X, order=1):
         if order > 1:
             raise NotImplementedError
-        return 0.5 * np.power(X, 2) - self.mean_ * X
+        return 0.5 * np.power(X, 2.0) - self.mean_ * X
 
 
 class PolynomialFeatures(TransformerMixin):
-- 
2.43.0


From 3b183dc193f163d46b352868959ae6655de7cbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:42 +0000
Subject: [PATCH 45/45] fix: correlation_direct overflowed for small integer
 types

---
 VolterraBasis/correlation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VolterraBasis/correlation.py b/VolterraBasis/correlation.py
index bfb7d78..32ab45f 100644
--- a/VolterraBasis/correlation.py
+++ b/VolterraBasis/correlation.py
@@ -63,6 +63,7 @@ def correlation_direct_ND(a, b=None, trunc=None):
     else:
         len_trunc = a.shape[-1]
     len_dat = a.shape[-1]
+    a = a.astype(np.result_type(a.dtype, float), copy=False)  # The products of small integers overflow
     # TODO: vérifier le type de l'array a et créer un array vide du même type
     res = np.zeros((a.shape[0], a.shape[0] if b is None else b.shape[0], len_trunc))
     if b is None:  # All the pairs of components, with the same convention than correlation_ND
-- 
2.43.0

