From db01f0905aec94a194de3be0f712894c89073f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:33 +0000
Subject: [PATCH 01/97] fix: ln_marginalise shifts each marginalised value by
 its own maximum (no overflow, no underflow) and applies dV in the compiled
 path

---
 src/MTfit/probability/cprobability.pyx | 11 ++++-------
 src/MTfit/probability/probability.py   | 19 +++++++++++++------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 0f776b8..2ce6a43 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -85,13 +85,11 @@ IF UNAME_SYSNAME == "Windows":
                 for v from 0<=v<vmax:
                     if ln_p[v,w]>scale:
                         scale=ln_p[v,w]
-                if scale>0:
-                    scale=0
                 if scale==-inf:
                     scale=0
                 for v from 0<=v<vmax:
-                    p+=exp(ln_p[v,w]+fabs(scale))
-                Ln_P[w]=log(p)-fabs(scale)
+                    p+=exp(ln_p[v,w]-scale)
+                Ln_P[w]=log(p)+scale
         return np.asarray(Ln_P)
 
     @cython.boundscheck(False)
@@ -142,12 +140,11 @@ ELSE:
                 scale=-inf
                 for v from 0<=v<vmax:
                     scale=fmax(scale,ln_p[v,w])
-                scale=fmin(scale,0)
                 if scale==-inf:
                     scale=0
                 for v from 0<=v<vmax:
-                    p+=exp(ln_p[v,w]+fabs(scale))
-                Ln_P[w]=log(p)-fabs(scale)
+                    p+=exp(ln_p[v,w]-scale)
+                Ln_P[w]=log(p)+scale
         return np.asarray(Ln_P)
 
     @cython.boundscheck(False)
diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 065512e..2914f73 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -864,11 +864,14 @@ def ln_marginalise(ln_pdf, axis=0, dV=1.0):
     Returns
         np.array - marginalised distribtion over axis
     """
+    if isinstance(ln_pdf, LnPDF):
+        ln_pdf = ln_pdf._ln_pdf
     if cprobability and axis == 0:
         try:
-            if isinstance(ln_pdf, LnPDF):
-                return cprobability.ln_marginalise(ln_pdf._ln_pdf.astype(np.float64))
-            return cprobability.ln_marginalise(ln_pdf.astype(np.float64))
+            result = cprobability.ln_marginalise(ln_pdf.astype(np.float64))
+            if ln_pdf.shape[0] > 1:
+                result = result + np.log(dV)
+            return result
         except Exception:
             logger.exception('Error running cython code')
     else:
@@ -880,14 +883,18 @@ def ln_marginalise(ln_pdf, axis=0, dV=1.0):
     elif axis == 0 and len(ln_pdf.shape) == 1:
         # Probably shouldn't be marginalising over the last parameter
         return ln_pdf
-    if np.prod(ln_pdf.shape) and ln_pdf.max() < 0 and ln_pdf.max() > -np.inf:
-        ln_scale = -ln_pdf.max()
+    if np.prod(ln_pdf.shape):
+        # Shift every marginalised value by its own maximum
+        ln_scale = -np.max(np.array(ln_pdf), axis=axis, keepdims=True)
+        ln_scale[~np.isfinite(ln_scale)] = 0
     with warnings.catch_warnings() and np.errstate(divide='ignore'):
         warnings.simplefilter("ignore")
         # if axis == 0:
         #     # Get consistency with c code
         #     ln_pdf = np.array(ln_pdf)
-        result = np.log(np.sum(np.exp(ln_pdf+ln_scale)*dV, axis=axis)) - ln_scale
+        result = np.log(np.sum(np.exp(ln_pdf+ln_scale)*dV, axis=axis))
+        if np.prod(ln_pdf.shape):
+            result = result - np.reshape(ln_scale, result.shape)
     if axis == 0:
         result = np.array(result).flatten()
     return result
-- 
2.43.0


From c237941b1a37847040ab76485093dc232ffa5a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 02/97] fix: ln_normalise honours dV in the compiled path,
 cannot overflow and keeps all-zero PDFs at zero

---
 src/MTfit/probability/cprobability.pyx | 15 ++++++++-------
 src/MTfit/probability/probability.py   | 14 ++++++--------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 2ce6a43..cd373c3 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -102,11 +102,11 @@ IF UNAME_SYSNAME == "Windows":
         for w from 0<=w<wmax:            
             if scale<ln_p[w]:
                 scale=ln_p[w]
-        if scale>0:
-            scale=0
+        if scale==-inf:
+            return np.asarray(ln_p)
         for w from 0<=w<wmax:
-            N+=exp(ln_p[w]+fabs(scale))*dV
-        N=log(N)-fabs(scale)
+            N+=exp(ln_p[w]-scale)*dV
+        N=log(N)+scale
         for w from 0<=w<wmax:
             ln_p[w]-=N
         return np.asarray(ln_p)
@@ -156,10 +156,11 @@ ELSE:
         cdef DTYPE_t scale=-inf, N=0
         for w from 0<=w<wmax:
             scale=fmax(scale,ln_p[w])
-        scale=fmin(scale,0)
+        if scale==-inf:
+            return np.asarray(ln_p)
         for w from 0<=w<wmax:
-            N+=exp(ln_p[w]+fabs(scale))*dV
-        N=log(N)-fabs(scale)
+            N+=exp(ln_p[w]-scale)*dV
+        N=log(N)+scale
         for w from 0<=w<wmax:
             ln_p[w]-=N
         return np.asarray(ln_p)
diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 2914f73..1f46236 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -917,28 +917,26 @@ def ln_normalise(ln_pdf, dV=1):
         np.array - normalised distribtion
 
     """
-    if ln_pdf.ndim == 1 and ln_pdf.shape[0] == 1:
-        return np.array([0])
     if cprobability:
         try:
             if ln_pdf.ndim != 1 and ln_pdf.shape[0] != 1:
                 raise Exception('Incorrect shape')
-            if ln_pdf.ndim == 2:
-                normalised_ln_pdf = cprobability.ln_normalise(np.asarray(ln_pdf).flatten())
-            else:
-                normalised_ln_pdf = cprobability.ln_normalise(ln_pdf)
-            return normalised_ln_pdf
+            # Flatten copies, so that the input is not normalised in place
+            return cprobability.ln_normalise(np.asarray(ln_pdf, dtype=np.float64).flatten(), dV)
         except Exception:
             logger.exception('Error running cython code')
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     # scale and then marginalise:
     ln_scale = 0
-    if -ln_pdf.max() > 0 and ln_pdf.max() > -np.inf:
+    if np.isfinite(ln_pdf.max()):
         ln_scale = -ln_pdf.max()
     with warnings.catch_warnings() and np.errstate(divide='ignore'):
         warnings.simplefilter("ignore")
         ln_n = np.log(np.sum(np.exp(ln_pdf+ln_scale) * dV, axis=None)) - ln_scale
+    if ln_n == -np.inf:
+        # Nothing to normalise
+        ln_n = 0
     if ln_pdf.ndim == 2 and 1 in list(ln_pdf.shape):
         ln_pdf = np.squeeze(np.asarray(ln_pdf))
         if not ln_pdf.shape:
-- 
2.43.0


From a695997af1a498729d5bd99a378828ecb2947aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 03/97] fix: compiled polarity-probability likelihood uses
 H(0)=0.5 on a nodal plane, as the documented step function

---
 src/MTfit/probability/cprobability.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index cd373c3..abdfb12 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -219,7 +219,7 @@ cdef inline DTYPE_t pol_prob_pdf(DTYPE_t x,DTYPE_t p,DTYPE_t n,DTYPE_t i) nogil:
     if x>0:
        return (1-i)*p+i*n
     elif x==0:
-        return 0.5
+        return 0.5*(p+n)
     else:
         return (1-i)*n+i*p
 
-- 
2.43.0


From 0e0dad351c19a28ced795e77e4cf31d96e802f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:23 +0000
Subject: [PATCH 04/97] fix: polarity likelihoods accept a single station in
 the compiled path

---
 src/MTfit/probability/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 1f46236..0bd4cf8 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -115,7 +115,7 @@ def polarity_ln_pdf(a, mt, sigma, incorrect_polarity_probability=0.0, _use_c=Non
             # Handle incorrect polarity probability
             if isinstance(incorrect_polarity_probability, (float, int)):
                 incorrect_polarity_probability = np.ones(sigma.shape)*incorrect_polarity_probability
-            incorrect_polarity_probability = np.squeeze(incorrect_polarity_probability)
+            incorrect_polarity_probability = np.atleast_1d(np.squeeze(incorrect_polarity_probability))
             if incorrect_polarity_probability.ndim != 1:
                 raise TypeError('Variable: incorrect_polarity_probability is expected to be a one-dimensional numpy array or a float')
             # Check types and convert to the correct types in place
@@ -230,7 +230,7 @@ def polarity_probability_ln_pdf(a, mt, positive_probability, negative_probabilit
             # Handle incorrect polarity probability
             if isinstance(incorrect_polarity_probability, (float, int)):
                 incorrect_polarity_probability = np.ones(positive_probability.shape)*incorrect_polarity_probability
-            incorrect_polarity_probability = np.squeeze(incorrect_polarity_probability)
+            incorrect_polarity_probability = np.atleast_1d(np.squeeze(incorrect_polarity_probability))
             if incorrect_polarity_probability.ndim != 1:
                 raise TypeError('Variable: incorrect_polarity_probability is expected to be a one-dimensional numpy array or a float')
             # Check types and convert to the correct types in place
-- 
2.43.0


From f7537fdbb855f35e10cb38d5589c40f77d4ee9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 05/97] fix: converting multiple-event results no longer
 changes the dictionary while iterating over it

---
 src/MTfit/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/sampling.py b/src/MTfit/sampling.py
index 95c1ddf..52a27b0 100644
--- a/src/MTfit/sampling.py
+++ b/src/MTfit/sampling.py
@@ -445,6 +445,6 @@ def _convert(moment_tensors, i=None):
     output = output_convert(moment_tensors)
     if isinstance(i, int):
         # Multiple events
-        for key in output.keys():
+        for key in list(output.keys()):
             output[key+'_'+str(i)] = output.pop(key)
     return output
-- 
2.43.0


From 1292dfebf12978d828c59b83c502a990e38e6120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 06/97] fix: multiple-event divergence looks up the source-type
 parameters instead of taking the maximum of their key

---
 src/MTfit/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/sampling.py b/src/MTfit/sampling.py
index 52a27b0..295fc2b 100644
--- a/src/MTfit/sampling.py
+++ b/src/MTfit/sampling.py
@@ -212,7 +212,7 @@ class Sample(object):
                         g = sorted([key for key in output.keys() if key == 'g' or ('g' in key and (key[0] == 'g' and key[1] == '_'))], key=lambda u: int(u.split('_')[-1]))
                         d = sorted([key for key in output.keys() if key == 'd' or ('d' in key and (key[0] == 'd' and key[1] == '_'))], key=lambda u: int(u.split('_')[-1]))
                         for i, gi in enumerate(g):
-                            if np.max(gi)-np.min(gi) < 0.000001 and np.abs(np.mean(gi)) < 0.000001 and np.max(d[i])-np.min(d[i]) < 0.000001 and np.abs(np.mean(d[i])) < 0.000001:
+                            if np.max(output[gi])-np.min(output[gi]) < 0.000001 and np.abs(np.mean(output[gi])) < 0.000001 and np.max(output[d[i]])-np.min(output[d[i]]) < 0.000001 and np.abs(np.mean(output[d[i]])) < 0.000001:
                                 V *= (2*np.pi*np.pi)
                             else:
                                 V *= (np.pi*np.pi*np.pi)
-- 
2.43.0


From ee320ead8c94bc9354bbb53cbedd91aba6e08b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 07/97] fix: the evidence of samples that all have zero
 likelihood is zero (ln -inf), not NaN

---
 src/MTfit/sampling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MTfit/sampling.py b/src/MTfit/sampling.py
index 295fc2b..18595f9 100644
--- a/src/MTfit/sampling.py
+++ b/src/MTfit/sampling.py
@@ -428,6 +428,9 @@ def ln_bayesian_evidence(output, n_samples, prior=_6sphere_prior):
         p = prior(output['g'], output['d'])
     if not isinstance(output['ln_pdf'], LnPDF):
         output['ln_pdf'] = LnPDF(output['ln_pdf'])
+    if output['ln_pdf']._ln_pdf.max() == -np.inf:
+        # All samples have zero likelihood
+        return -np.inf
     return np.log((output['ln_pdf']+np.log(p)-output['ln_pdf']._ln_pdf.max()).exp().sum())+output['ln_pdf']._ln_pdf.max()-np.log(n_samples)
 
 
-- 
2.43.0


From d3030652115a1b5182d183cb1b87fe1f389a9f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 08/97] fix: dkl is not NaN where p underflows and q is zero

---
 src/MTfit/probability/cprobability.pyx | 3 ++-
 src/MTfit/probability/probability.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index abdfb12..2decf43 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1846,7 +1846,8 @@ cdef DTYPE_t c_dkl(DTYPE_t*ln_probability_p,DTYPE_t*ln_probability_q,DTYPE_t dV,
     for i from 0<=i<n:
         if ln_probability_p[i]>-inf:#Check no zeros in p 
             p=exp(ln_probability_p[i])
-            dkl+=p*ln_probability_p[i]-p*ln_probability_q[i]
+            if p>0:#p may underflow
+                dkl+=p*ln_probability_p[i]-p*ln_probability_q[i]
     return dkl*dV
 
 @cython.boundscheck(False)
diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 0bd4cf8..0745010 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -829,10 +829,11 @@ def dkl(ln_probability_p, ln_probability_q, dV=1.0):
             logger.exception('Error running cython code')
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
-    ind = ln_probability_p > -np.inf
     ln_probability_p = ln_probability_p.copy() - ln_probability_p.max()
     ln_probability_q = ln_probability_q.copy() - ln_probability_q.max()
     probability_p = np.exp(ln_probability_p)
+    # Terms where p is zero do not contribute
+    ind = probability_p > 0
     # Normalise PDF p
     n = np.sum(probability_p)*dV
     ln_probability_p -= np.log(n)
-- 
2.43.0


From 94062c5ce497180fae0164fa44769378d1f368aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 09/97] fix: compiled exponential of a one-dimensional log PDF
 returns all its values

---
 src/MTfit/probability/cprobability.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 2decf43..ecbb99d 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1813,7 +1813,7 @@ cpdef ln_non_zero(DTYPE_t[:] ln_p):
 @cython.wraparound(False)
 @cython.nonecheck(False)
 cpdef ln_exp(DTYPE_t[::1] ln_p, DTYPE_t dV=1):
-    cdef Py_ssize_t wmax=ln_p.shape[1]
+    cdef Py_ssize_t wmax=ln_p.shape[0]
     cdef Py_ssize_t w
     cdef DTYPE_t[::1] p =np.empty(wmax)
     for w from 0<=w<wmax:
-- 
2.43.0


From 69622cc8167004edf1ce485adad563f1f670797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 10/97] fix: LnPDF objects can be unpickled

---
 src/MTfit/probability/probability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 0745010..d6dad35 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -1048,7 +1048,8 @@ class LnPDF(object):
     def __getstate__(self):
         return self._ln_pdf, self.dV
 
-    def __setstate__(self, ln_pdf, dV):
+    def __setstate__(self, state):
+        ln_pdf, dV = state
         self._set_ln_pdf(ln_pdf)
         self._set_dv(dV)
 
-- 
2.43.0


From 2d86c643ce00579e4f910151f14a1160d5390ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 11/97] fix: 3x3 moment tensors use the symmetric eigen-solver,
 so axes are real and orthonormal for repeated eigenvalues

---
 src/MTfit/convert/moment_tensor_conversion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 20753a5..62818a9 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -18,6 +18,7 @@ The coordinate system is North (X), East (Y), Down (Z)
 import logging
 
 import numpy as np
+from scipy.linalg import eigh
 from scipy.optimize import fsolve
 
 from ..utilities import C_EXTENSION_FALLBACK_LOG_MSG
@@ -178,7 +179,8 @@ def MT33_TNPE(MT33):
         (numpy.matrix, numpy.matrix, numpy.matrix, numpy.array): tuple of T, N, P
                         vectors and Eigenvalue array
     """
-    E, L = np.linalg.eig(MT33)
+    E, L = eigh(MT33)
+    L = np.matrix(L)
     idx = E.argsort()[::-1]
     E = E[idx]
     L = L[:, idx]
@@ -213,7 +215,7 @@ def MT33_GD(MT33):
     Returns
         (numpy.array, numpy.array): tuple of gamma, delta
     """
-    E, L = np.linalg.eig(MT33)
+    E = eigh(MT33, eigvals_only=True)[::-1]
     return E_GD(E)
 
 
-- 
2.43.0


From 7255210ed49aacbbe303f0c8585d5fb6a3f1d7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 12/97] fix: compiled eigen-decomposition of an isotropic
 tensor no longer reads out of bounds

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index a6bfe5c..b0451b3 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -300,7 +300,7 @@ cdef cMT6_TNPE(DTYPE_t[:] MT):
     mini=0
     cdef Py_ssize_t i
     for i in [0,1,2]:
-        if e[i]>e[maxi]:
+        if e[i]>=e[maxi]:
             maxi=i
         if e[i]<e[mini]:
             mini=i
-- 
2.43.0


From 8fab2e4be47e4a17a17f1b523b1533444237870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 13/97] fix: lune coordinates do not depend on the eigenvalue
 order in the compiled path and are never NaN near the isotropic points

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 17 ++++++++++-------
 src/MTfit/convert/moment_tensor_conversion.py   |  2 +-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index b0451b3..591f881 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -87,16 +87,19 @@ cdef inline DTYPE_t[::1] ctk_uv(DTYPE_t[::1] results) nogil:
 @cython.nonecheck(False)
 @cython.cdivision(True)
 cdef inline void cE_gd(DTYPE_t[:] E,DTYPE_t*g,DTYPE_t*d) nogil:
-    if E[0]==E[2]:
-        if E[0]>0:
-            g[0]=0
+    cdef DTYPE_t e0=max(E[0],E[1],E[2])
+    cdef DTYPE_t e2=min(E[0],E[1],E[2])
+    cdef DTYPE_t e1=max(min(E[0],E[1]),min(max(E[0],E[1]),E[2]))
+    if e0==e2:
+        g[0]=0
+        d[0]=0
+        if e0>0:
             d[0]=pi/2
-        elif E[0]<0:
-            g[0]=0
+        elif e0<0:
             d[0]=-pi/2
     else:
-        g[0]=atan2(-E[0]+2*E[1]-E[2],sqrt3*(E[0]-E[2]))
-        d[0]=pi/2-acos((E[0]+E[1]+E[2])/(sqrt3*sqrt((E[0]*E[0]+E[1]*E[1]+E[2]*E[2]))))
+        g[0]=atan2(-e0+2*e1-e2,sqrt3*(e0-e2))
+        d[0]=pi/2-acos(max(-1.,min(1.,(e0+e1+e2)/(sqrt3*sqrt((e0*e0+e1*e1+e2*e2))))))
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.nonecheck(False)
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 62818a9..13c8aba 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -352,7 +352,7 @@ def E_GD(E):
         idx = E.argsort()[::-1]
         E = E[idx]
         gamma = np.arctan2(-E[0]+2*E[1]-E[2], np.sqrt(3)*(E[0]-E[2]))
-        beta = np.arccos(np.sum(E)/(np.sqrt(3)*np.sqrt(np.sum(E*E))))
+        beta = np.arccos(np.clip(np.sum(E)/(np.sqrt(3)*np.sqrt(np.sum(E*E))), -1, 1))
         delta = np.real(np.pi/2-beta)
     return gamma, delta
 
-- 
2.43.0


From bd3947d287ecad836303a351610b8dd4a7aee28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 14/97] fix: Hudson coordinates do not depend on the eigenvalue
 order and accept lists as documented

---
 src/MTfit/convert/moment_tensor_conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 13c8aba..fcc652a 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -229,14 +229,14 @@ def E_tk(E):
     Returns
         (float, float): tau, k  tuple
     """
-    if isinstance(E, np.ndarray):
-        E = np.squeeze(np.array(E))
+    E = np.squeeze(np.array(E))
     if len(E.shape) > 1 and E.shape[1] > 1:
         tau = np.empty(E.shape[1])
         k = np.empty(E.shape[1])
         for i in range(E.shape[1]):
             tau[i], k[i] = E_tk(E[:, i])
     else:
+        E = np.sort(E)[::-1]
         idx = [0, 2, 1]  # Odd sorting
         E = E[idx]
         iso = (E[0]+E[1]+E[2])/3
-- 
2.43.0


From 7d7d46ea667c1191d4746d0b447755aedc2eac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 15/97] fix: crack+double-couple mapping is not NaN for a pure
 crack

---
 src/MTfit/convert/moment_tensor_conversion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index fcc652a..020fcbc 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -371,7 +371,7 @@ def GD_basic_cdc(gamma, delta):
         (numpy.array, numpy.array): tuple of alpha, poisson
     """
 
-    alpha = np.arccos(-np.sqrt(3)*np.tan(gamma))
+    alpha = np.arccos(np.clip(-np.sqrt(3)*np.tan(gamma), -1, 1))
     poisson = (1+np.sqrt(2) * (np.tan((np.pi/2)-delta) * np.sin(gamma)))
     poisson /= (2-(np.sqrt(2) * (np.tan((np.pi/2)-delta) * np.sin(gamma))))
     return alpha, poisson
@@ -485,9 +485,9 @@ def basic_cdc_GD(alpha, poisson=0.25):
 
     """
     gamma = np.arctan((-1/np.sqrt(3.))*np.cos(alpha))
-    beta = np.arccos(np.sqrt(2./3)*np.cos(alpha)*(1.+poisson) /
-                     np.sqrt(((1.-2.*poisson)*(1.-2.*poisson)) +
-                             np.cos(alpha)*np.cos(alpha)*(1.+2.*poisson*poisson)))
+    beta = np.arccos(np.clip(np.sqrt(2./3)*np.cos(alpha)*(1.+poisson) /
+                             np.sqrt(((1.-2.*poisson)*(1.-2.*poisson)) +
+                                     np.cos(alpha)*np.cos(alpha)*(1.+2.*poisson*poisson)), -1, 1))
     try:
         # fix for odd cos division problems
         beta[alpha == np.pi/2] = np.pi/2
-- 
2.43.0


From d9d664e2fd6339ed0f6a00d56c3acbe6ea697049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 16/97] fix: rake of (near-)horizontal fault planes keeps the
 slip direction

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 8 +++++++-
 src/MTfit/convert/moment_tensor_conversion.py   | 5 +++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index 591f881..0fe6b0a 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -114,7 +114,13 @@ cdef inline void cN_SDR(DTYPE_t N0,DTYPE_t N1,DTYPE_t N2,DTYPE_t S0,DTYPE_t S1,D
         S2 = -S2
     strike[0] = atan2(-N0, N1)
     dip[0] = atan2((N1**2+N0**2), sqrt((N0*N2)**2+(N1*N2)**2))
-    rake[0] = atan2(-S2, S0*N1 - S1*N0)
+    if N0*N0+N1*N1 < 1e-6:
+        # (near-)horizontal planes have no usable horizontal normal component, so take
+        # the slip components along strike and up dip
+        rake[0] = atan2((S0*sin(strike[0])-S1*cos(strike[0]))*cos(dip[0])-S2*sin(dip[0]),
+                        S0*cos(strike[0])+S1*sin(strike[0]))
+    else:
+        rake[0] = atan2(-S2, S0*N1 - S1*N0)
     if dip[0] > pi/2:
         dip[0] = pi-dip[0]
         strike[0] = strike[0]+pi
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 020fcbc..e92abc3 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -457,6 +457,11 @@ def FP_SDR(normal, slip):
     slip = np.array(slip)
     strike, dip = normal_SD(normal)
     rake = np.arctan2(-slip[2], slip[0]*normal[1]-slip[1]*normal[0])
+    # (near-)horizontal planes have no usable horizontal normal component, so take
+    # the slip components along strike and up dip
+    flat = (normal[0]**2+normal[1]**2) < 1e-6
+    rake[flat] = np.arctan2((slip[0]*np.sin(strike)-slip[1]*np.cos(strike))*np.cos(dip)-slip[2]*np.sin(dip),
+                            slip[0]*np.cos(strike)+slip[1]*np.sin(strike))[flat]
     strike[dip > np.pi/2] += np.pi
     rake[dip > np.pi/2] = 2*np.pi-rake[dip > np.pi/2]
     dip[dip > np.pi/2] = np.pi-dip[dip > np.pi/2]
-- 
2.43.0


From 46988e23c8aa3e21d7c7a70b740df164db343341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 17/97] fix: pure-Python SDR_SDR always returns the auxiliary
 plane instead of guessing from the strike difference

---
 src/MTfit/convert/moment_tensor_conversion.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index e92abc3..0b97f05 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -580,19 +580,9 @@ def SDR_SDR(strike, dip, rake):
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     # Handle multiple inputs
     N1, N2 = SDR_FP(strike, dip, rake)
-    s1, d1, r1 = FP_SDR(N1, N2)
-    s2, d2, r2 = FP_SDR(N2, N1)
-    # This should be ok to return s2,d2,r2 but doesn't seem to work
-    try:
-        r2[np.abs(strike-s2) < 1] = r1[np.abs(strike-s2) < 1]
-        d2[np.abs(strike-s2) < 1] = d1[np.abs(strike-s2) < 1]
-        s2[np.abs(strike-s2) < 1] = s1[np.abs(strike-s2) < 1]
-        return s2, d2, r2
-    except Exception:
-        if np.abs(strike-s1) < 1:
-            return (s2, d2, r2)
-        else:
-            return (s1, d1, r1)
+    # SDR_FP returns the vectors of the input plane as (slip, normal), so the first one
+    # is the normal of the other fault plane
+    return FP_SDR(N1, N2)
 
 
 def FP_TNP(normal, slip):
-- 
2.43.0


From fa4fcdc8961870bb546362bb433bb5035d199768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:27 +0000
Subject: [PATCH 18/97] fix: SDR_FP returns the normal and slip vectors in the
 documented order, so FP_SDR inverts it

---
 src/MTfit/convert/moment_tensor_conversion.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 0b97f05..563942c 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -579,10 +579,9 @@ def SDR_SDR(strike, dip, rake):
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     # Handle multiple inputs
-    N1, N2 = SDR_FP(strike, dip, rake)
-    # SDR_FP returns the vectors of the input plane as (slip, normal), so the first one
-    # is the normal of the other fault plane
-    return FP_SDR(N1, N2)
+    normal, slip = SDR_FP(strike, dip, rake)
+    # The slip vector is the normal of the other fault plane
+    return FP_SDR(slip, normal)
 
 
 def FP_TNP(normal, slip):
@@ -647,7 +646,8 @@ def SDR_FP(strike, dip, rake):
         (numpy.matrix, numpy.matrix): tuple of Normal and slip vectors
     """
     T, N, P = SDR_TNP(strike, dip, rake)
-    return TP_FP(T, P)
+    slip, normal = TP_FP(T, P)
+    return normal, slip
 
 
 def SDR_SDSD(strike, dip, rake):
-- 
2.43.0


From 08fb3935384a166229dcf00fc6f7fddfc6a8760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:54 +0000
Subject: [PATCH 19/97] fix: Hudson u is not NaN for isotropic tensors whose
 eigenvalues differ by rounding

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 5 +++--
 src/MTfit/convert/moment_tensor_conversion.py   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index 0fe6b0a..38997f3 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -46,10 +46,11 @@ cdef inline DTYPE_t[::1] cE_tk(DTYPE_t[::1] E,DTYPE_t[::1] results) nogil:
     cdef DTYPE_t dev0=E[0]-iso
     cdef DTYPE_t dev1=E[2]-iso#Odd sorting from hudson paper E[0]>=E[2]>=E[1]
     cdef DTYPE_t dev2=E[1]-iso
-    if dev2>0:
+    #dev0 and dev1 can round to zero for (near-)isotropic tensors
+    if dev2>0 and dev1<0:
         results[5]=iso/(fabs(iso)-dev1)
         results[6]=-2*(dev2)/(dev1)
-    elif dev2<0:
+    elif dev2<0 and dev0>0:
         results[5]=iso/(fabs(iso)+dev0)
         results[6]=2*dev2/dev0
     else:
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 563942c..f1911f3 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -243,10 +243,11 @@ def E_tk(E):
         dev0 = E[0]-iso
         dev1 = E[1]-iso
         dev2 = E[2]-iso
-        if dev2 > 0:
+        # dev0 and dev1 can round to zero for (near-)isotropic tensors
+        if dev2 > 0 and dev1 < 0:
             k = iso/(abs(iso)-dev1)
             T = -2*(dev2)/(dev1)
-        elif dev2 < 0:
+        elif dev2 < 0 and dev0 > 0:
             k = iso/(abs(iso)+dev0)
             T = 2*dev2/dev0
         else:
-- 
2.43.0


From 04d986b646459c015ed1b6dadf1f8279d26105f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:30 +0000
Subject: [PATCH 20/97] fix: lune longitude cannot leave [-pi/6, pi/6] by
 cancellation near the isotropic points

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 2 +-
 src/MTfit/convert/moment_tensor_conversion.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index 38997f3..7d18c2d 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -99,7 +99,7 @@ cdef inline void cE_gd(DTYPE_t[:] E,DTYPE_t*g,DTYPE_t*d) nogil:
         elif e0<0:
             d[0]=-pi/2
     else:
-        g[0]=atan2(-e0+2*e1-e2,sqrt3*(e0-e2))
+        g[0]=atan2((e1-e0)+(e1-e2),sqrt3*(e0-e2))
         d[0]=pi/2-acos(max(-1.,min(1.,(e0+e1+e2)/(sqrt3*sqrt((e0*e0+e1*e1+e2*e2))))))
 @cython.boundscheck(False)
 @cython.wraparound(False)
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index f1911f3..e58471e 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -352,7 +352,7 @@ def E_GD(E):
             return 0, np.sign(np.unique(E))*np.pi/2
         idx = E.argsort()[::-1]
         E = E[idx]
-        gamma = np.arctan2(-E[0]+2*E[1]-E[2], np.sqrt(3)*(E[0]-E[2]))
+        gamma = np.arctan2((E[1]-E[0])+(E[1]-E[2]), np.sqrt(3)*(E[0]-E[2]))
         beta = np.arccos(np.clip(np.sum(E)/(np.sqrt(3)*np.sqrt(np.sum(E*E))), -1, 1))
         delta = np.real(np.pi/2-beta)
     return gamma, delta
-- 
2.43.0


From da6ecc5ca01a58a8ce9229e0bddf3984789258bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:48 +0000
Subject: [PATCH 21/97] fix: the compiled random double-couple sources have
 unit norm

---
 src/MTfit/probability/cprobability.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index ecbb99d..e36d553 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1955,12 +1955,12 @@ cdef DTYPE_t[:,::1] rand_dc(int x):
         s2k=sin(2*kappa)
         ss=sin(sigma)
         sh=sqrt(1-h*h)
-        mt[0,j]=-sh*cs*s2k-2*h*sh*ss*sk*sk
-        mt[1,j]=sh*cs*2*sk*ck-2*sh*h*ss*ck*ck
-        mt[2,j]=2*sh*h*ss
-        mt[3,j]=sqrt2*(sh*cs*(ck*ck-sk*sk)+h*sh*ss*s2k)
-        mt[4,j]=sqrt2*(-h*cs*ck-(2*h*h-1)*ss*sk)
-        mt[5,j]=sqrt2*(-h*cs*sk+(2*h*h-1)*ss*ck)
+        mt[0,j]=(-sh*cs*s2k-2*h*sh*ss*sk*sk)/sqrt2
+        mt[1,j]=(sh*cs*2*sk*ck-2*sh*h*ss*ck*ck)/sqrt2
+        mt[2,j]=(2*sh*h*ss)/sqrt2
+        mt[3,j]=sh*cs*(ck*ck-sk*sk)+h*sh*ss*s2k
+        mt[4,j]=-h*cs*ck-(2*h*h-1)*ss*sk
+        mt[5,j]=-h*cs*sk+(2*h*h-1)*ss*ck
     return mt
 
 cpdef random_mt(int x):
-- 
2.43.0


From fba54a2730f02531dbbc257d4c5ed12c769ef587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:48 +0000
Subject: [PATCH 22/97] fix: each random CLVD sample has its own sign

---
 src/MTfit/algorithms/base.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/MTfit/algorithms/base.py b/src/MTfit/algorithms/base.py
index 74924ee..3fae0b9 100644
--- a/src/MTfit/algorithms/base.py
+++ b/src/MTfit/algorithms/base.py
@@ -252,15 +252,9 @@ class BaseAlgorithm(object):
 
         """
         np.random.seed()
-        # Select CVLD type
-        np.kron([[1], [1], [1]], np.sign(np.random.rand(self.number_samples)-0.5))*np.ones(
-            (3, self.number_samples))*np.array([[2/np.sqrt(6)], [-1/np.sqrt(6)], [-1/np.sqrt(6)]])
-        if np.random.rand() > 0.5:
-            clvd_diag = np.array(
-                [[2/np.sqrt(6)], [-1/np.sqrt(6)], [-1/np.sqrt(6)]])
-        else:
-            clvd_diag = np.array(
-                [[-2/np.sqrt(6)], [1/np.sqrt(6)], [1/np.sqrt(6)]])
+        # Select CVLD type of each sample
+        clvd_type = np.where(np.random.rand(self.number_samples) < 0.5, -1., 1.)
+        clvd_diag = clvd_type*np.array([[2/np.sqrt(6)], [-1/np.sqrt(6)], [-1/np.sqrt(6)]])
         # Use random_type for DC eigenvalues
         return self.random_type(clvd_diag)
 
-- 
2.43.0


From 08e3d95e44daf8c2648da2ad05017cbf808c3772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:48 +0000
Subject: [PATCH 23/97] fix: random samples of several events come from the
 chosen sample distribution

---
 src/MTfit/algorithms/monte_carlo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MTfit/algorithms/monte_carlo.py b/src/MTfit/algorithms/monte_carlo.py
index 9a58b98..439f86d 100644
--- a/src/MTfit/algorithms/monte_carlo.py
+++ b/src/MTfit/algorithms/monte_carlo.py
@@ -64,6 +64,8 @@ class BaseMonteCarloRandomSample(BaseAlgorithm):
                     MTs.append(self.random_dc())
                 elif self.basic_cdc:
                     MTs.append(self.random_basic_cdc())
+                elif self._model:
+                    MTs.append(self.random_model(self.number_samples))
                 else:
                     MTs.append(self.random_mt())
                 i += 1
-- 
2.43.0


From 4d3c0b6164aedf9504e6ff72c179d13e547c6b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:22 +0000
Subject: [PATCH 24/97] fix: match location records by station name record by
 record

---
 src/MTfit/inversion.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 418074d..8546d3a 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -15,7 +15,6 @@ Module containing the main inversion class, MTfit.inversion.Inversion class.
 import sys
 import os
 import glob
-import operator
 import time
 import gc
 import warnings
@@ -2876,10 +2875,9 @@ def polarity_matrix(data, location_samples=False):
             location_samples = [u.copy() for u in original_samples]
             selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
             n_stations = len(selected_stations)
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
             angles = np.zeros((n_stations, len(location_samples), 6))
             for i, sample in enumerate(location_samples):
-                sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
+                indices = [sample['Name'].index(u) for u in selected_stations]
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
                 angles[:, i, :] = station_angles(sample, mode)
@@ -2957,10 +2955,9 @@ def polarity_probability_matrix(data, location_samples=False):
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
             selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
             angles = np.zeros((len(selected_stations), len(location_samples), 6))
             for i, sample in enumerate(location_samples):
-                sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
+                indices = [sample['Name'].index(u) for u in selected_stations]
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
                 angles[:, i, :] = station_angles(sample, mode)
@@ -3032,11 +3029,10 @@ def amplitude_ratio_matrix(data, location_samples=False):
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
             selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
             angles1 = np.zeros((len(selected_stations), len(location_samples), 6))
             angles2 = np.zeros((len(selected_stations), len(location_samples), 6))
             for i, sample in enumerate(location_samples):
-                sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
+                indices = [sample['Name'].index(u) for u in selected_stations]
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
                 angles1[:, i, :] = station_angles(sample, phase.split('/')[0])
@@ -3106,10 +3102,9 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
             selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
             angles = np.zeros((len(selected_stations), len(location_samples), 6))
             for i, sample in enumerate(location_samples):
-                sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
+                indices = [sample['Name'].index(u) for u in selected_stations]
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
                 angles[:, i, :] = station_angles(sample, phase)
-- 
2.43.0


From 98fd792d618aad576110930feffd31b02c553ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:22 +0000
Subject: [PATCH 25/97] fix: incorrect-polarity probabilities of several
 polarity types have one value per observation

---
 src/MTfit/inversion.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 8546d3a..902f0f0 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2919,6 +2919,9 @@ def polarity_matrix(data, location_samples=False):
             if len(_incorrect_polarity_prob) != n_stations:
                 # Make sure this is the same length as the data as we are appending it
                 _incorrect_polarity_prob = np.kron(_incorrect_polarity_prob, np.ones(n_stations))
+            if len(incorrect_polarity_prob) != a.shape[0]-n_stations:
+                # The previous data types may have the default value
+                incorrect_polarity_prob = np.kron(incorrect_polarity_prob, np.ones(a.shape[0]-n_stations))
             incorrect_polarity_prob = np.append(incorrect_polarity_prob, _incorrect_polarity_prob, 0)
     # Set incorrect polarity prob if default
     if np.sum(np.abs(incorrect_polarity_prob)) == 0:
@@ -2985,6 +2988,13 @@ def polarity_probability_matrix(data, location_samples=False):
             negative_probability = np.array(measured[:, 1]).flatten()
             incorrect_polarity_prob = _incorrect_polarity_prob
         else:
+            n_stations = angles.shape[0]
+            if len(_incorrect_polarity_prob) != n_stations:
+                # Make sure this is the same length as the data as we are appending it
+                _incorrect_polarity_prob = np.kron(_incorrect_polarity_prob, np.ones(n_stations))
+            if len(incorrect_polarity_prob) != a.shape[0]:
+                # The previous data types may have the default value
+                incorrect_polarity_prob = np.kron(incorrect_polarity_prob, np.ones(a.shape[0]))
             a = np.append(a, angles, 0)
             positive_probability = np.append(positive_probability, np.array(measured[:, 0]).flatten())
             negative_probability = np.append(positive_probability, np.array(measured[:, 1]).flatten())
-- 
2.43.0


From 0c69af3060728a6609474667427a438153c61d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:22 +0000
Subject: [PATCH 26/97] fix: negative polarity probabilities of several
 polarity types are not built from the positive ones

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 902f0f0..18bda85 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2997,7 +2997,7 @@ def polarity_probability_matrix(data, location_samples=False):
                 incorrect_polarity_prob = np.kron(incorrect_polarity_prob, np.ones(a.shape[0]))
             a = np.append(a, angles, 0)
             positive_probability = np.append(positive_probability, np.array(measured[:, 0]).flatten())
-            negative_probability = np.append(positive_probability, np.array(measured[:, 1]).flatten())
+            negative_probability = np.append(negative_probability, np.array(measured[:, 1]).flatten())
             incorrect_polarity_prob = np.append(incorrect_polarity_prob, _incorrect_polarity_prob, 0)
     # Set incorrect polarity prob if default
     if np.sum(np.abs(incorrect_polarity_prob)) == 0:
-- 
2.43.0


From 5f3ec9f8f9bae0e90d7b38ab28978bcbdf3d877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:22 +0000
Subject: [PATCH 27/97] fix: amplitude ratios with an RMSQ suffix are accepted
 as amplitudes are

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 18bda85..d167eca 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -3032,9 +3032,9 @@ def amplitude_ratio_matrix(data, location_samples=False):
     # Loop over data and get amplitude ratio data
     for key in sorted([u for u in data.keys() if 'amplituderatio' in u.lower() or 'amplitude_ratio' in u.lower()]):
         phase = key.replace('_', '').lower().split('amplituderatio')[0]
+        phase = phase.rstrip('q')
         phase = phase.rstrip('rms')
         phase = phase.rstrip('q')
-        phase.replace('_', '')
         # If location samples, get intersection stations and data
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
-- 
2.43.0


From baaa3e5897414a87f1d6f8a79dcb48cb06cec001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:22 +0000
Subject: [PATCH 28/97] fix: relative amplitudes of several types with location
 samples

---
 src/MTfit/inversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index d167eca..4359b78 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -3121,8 +3121,8 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
             angles = np.array(angles)
             relative_amplitude_stations.extend(selected_stations)
             indices = [data[key]['Stations']['Name'].index(u) for u in selected_stations]
-            measured = data[key]['Measured'][indices]
-            error = data[key]['Error'][indices]
+            measured = np.array(data[key]['Measured'][indices]).flatten()
+            error = np.array(data[key]['Error'][indices]).flatten()
         # Otherwise get angles and measurements
         else:
             angles = np.zeros((np.prod(data[key]['Stations']['TakeOffAngle'].shape), 1, 6))
-- 
2.43.0


From 88c60794c8ffbd6fb7c25a3618eb44374d0b0cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:08 +0000
Subject: [PATCH 29/97] fix: the pure-Python forward task passes
 polarity-probability coefficients and tensors as the likelihood expects

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 4359b78..bfd86e3 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -278,7 +278,7 @@ class ForwardTask(object):
                             with warnings.catch_warnings() and np.errstate(divide='ignore'):
                                 warnings.simplefilter("ignore")
                                 # Polarity probability ln_pdf (will try to use cython again, and only fall back to python if necessary)
-                                ln_p_total = polarity_probability_ln_pdf(np.tensordot(self.a_polarity_prob, self.mt, 1), self.polarity_prob[0], self.polarity_prob[1], self.incorrect_polarity_prob)
+                                ln_p_total = polarity_probability_ln_pdf(self.a_polarity_prob, self.mt, self.polarity_prob[0], self.polarity_prob[1], self.incorrect_polarity_prob)
                             _return = True
                             # Print number of non zero samples (Verbosity>=3)
                             logger.debug('Polarity probability non-zero samples = {}'.format(sum(ln_p_total > -np.inf)))
-- 
2.43.0


From dd3e0c202f471438012565d9b12931f59d72d7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:08 +0000
Subject: [PATCH 30/97] fix: location sample weights are applied whatever their
 mean and number in the pure-Python forward task

---
 src/MTfit/inversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index bfd86e3..5add404 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -342,13 +342,13 @@ class ForwardTask(object):
                         # No data has been used, so print exceptions
                         logging.error('No data used in polarity, amplitude ratio or polarity PDF')
                     # If location PDF samples exist and sample PDF multipliers exist (increased Prob) - For Oct -tree sampling  sample density correspond to PDF values (more samples in higher prob). Grid sampling needs location multipliers set (can be done using Scat2Angle with 'grid' option in command line)
-                    if location_samples and self.location_sample_multipliers and sum(self.location_sample_multipliers) != len(self.location_sample_multipliers):
+                    if self.location_sample_multipliers and len(self.location_sample_multipliers) == ln_p_total.shape[0]:
                         if cprobability:
                             location_sample_multipliers = np.array(self.location_sample_multipliers)
                             location_sample_multipliers = location_sample_multipliers.astype(np.float64, copy=False)
                             ln_p_total = cprobability.ln_multipliers(ln_p_total, location_sample_multipliers)
                         else:
-                            ln_p_total += np.log(np.matrix(self.location_sample_multipliers).T)  # Conversion to matrix and transpose to correct for list order to ln_p_total dimensions (0 is sample dimension)
+                            ln_p_total = ln_p_total + np.log(np.array([self.location_sample_multipliers], dtype=np.float64).T)  # Conversion to matrix and transpose to correct for list order to ln_p_total dimensions (0 is sample dimension)
                     # If there are location samples and the marginalise flag is set, then marginalise, trying to use Cython
                     if location_samples and self.marginalise:
                         ln_p_total = ln_marginalise(ln_p_total)
-- 
2.43.0


From 5bc7b74cbd42ca84a6de1747bf04afa308ac0ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:26 +0000
Subject: [PATCH 31/97] fix: all-zero results keep one row per location sample
 when they are not marginalised

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 5add404..a78a97c 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -221,7 +221,7 @@ class ForwardTask(object):
                         if not np.prod(ln_p_total.shape) or not ln_p_total.max() > -np.inf:
                             if not self._return_zero:
                                 return {'moment_tensors': np.matrix([]), 'ln_pdf': LnPDF(np.matrix([])), 'n': N}
-                            return {'moment_tensors': self.mt, 'ln_pdf': LnPDF(-np.inf*np.ones(self.mt.shape[1])), 'n': N}
+                            return {'moment_tensors': self.mt, 'ln_pdf': LnPDF(-np.inf*np.ones((max(1, ln_p_total.shape[0]), self.mt.shape[1]))), 'n': N}
                         # Otherwise probability evaluation is complete so set return flag to True
                         _return = True
                     except Exception:
-- 
2.43.0


From f23320f76361f3f6aecc66c25c447f024d949e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:34 +0000
Subject: [PATCH 32/97] fix: c_generate uses a whole number of samples, and
 falls back without the compiled probability module, instead of never ending

---
 src/MTfit/inversion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index a78a97c..8eb42d9 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -1401,7 +1401,8 @@ class Inversion(object):
         self.normalise = kwargs.get('normalise', True)
         self.convert = kwargs.get('convert', False)
         self.discard = kwargs.get('discard', False)
-        self.c_generate = kwargs.get('c_generate', False)
+        # Samples can only be generated in the probability calculation if the Cython module is available
+        self.c_generate = bool(kwargs.get('c_generate', False) and cprobability)
         self._relative_loop = kwargs.get('relative_loop', False)
         self.bin_angle_coefficient_samples = kwargs.get('bin_angle_coefficient_samples', 0)
         number_stations = 40
@@ -1643,7 +1644,7 @@ class Inversion(object):
                                              sample_distribution=self.kwargs.get('sample_distribution', False))
             if single and self.c_generate:
                 # Set generate cutoff size
-                self.generate_samples = self.number_samples/5
+                self.generate_samples = max(1, int(self.number_samples/5))
                 self.generate_cutoff = max_samples
         # Time algorithm
         elif self._algorithm_name.lower() in ['time']:
@@ -1657,7 +1658,7 @@ class Inversion(object):
                                         sample_distribution=self.kwargs.get('sample_distribution', False))
             if single and self.c_generate:
                 # Set generate sample size, cutoff is default or set in initialisation
-                self.generate_samples = self.number_samples/5
+                self.generate_samples = max(1, int(self.number_samples/5))
         # Algorithm extensions
         elif self._algorithm_name.lower() in get_extensions('MTfit.parallel_algorithms')[0]:
             extension_algorithms = get_extensions('MTfit.parallel_algorithms')[0]
-- 
2.43.0


From 57a426fc0f4e756d0284f70b09846c28cde34c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 33/97] fix: file-backed samples are all output, in the order
 they were appended, with or without scale factors

---
 src/MTfit/sampling.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/MTfit/sampling.py b/src/MTfit/sampling.py
index 18595f9..067c55c 100644
--- a/src/MTfit/sampling.py
+++ b/src/MTfit/sampling.py
@@ -376,21 +376,26 @@ class FileSample(Sample):
         data = self.loadmat(self.fname)
         # Set up attributes for Sample.output call
         self.moment_tensors = np.matrix(np.zeros((self.number_events*6, self.non_zero_samples)))
-        self.scale_factor = False
-        if len([key for key in data if 'scale_factor' in key]):
-            self.scale_factor = []
+        self.ln_pdf = LnPDF()
+        scale_factor = []
         _x = 0
         self.n = data['n']
-        for key in [key for key in data.keys() if 'MTSpace' in key]:
-            i = key.split('_')[-1]
+        # Sections in the order that they were appended (not the alphabetical order of the file)
+        for i in sorted([int(key.split('_')[-1]) for key in data.keys() if 'MTSpace' in key]):
             self.ln_pdf.append(LnPDF(data['LnPDF_'+str(i)]))
             moment_tensors = data['MTSpace_'+str(i)]
             self.moment_tensors[:, _x: _x+moment_tensors.shape[1]] = moment_tensors
-            if isinstance(self.scale_factor, list):
-                self.scale_factor.append(data['scale_factor_'+str(i)])
+            if 'scale_factor_'+str(i) in data:
+                scale_factor.extend(data['scale_factor_'+str(i)])
             _x += moment_tensors.shape[1]
-        self.scale_factor = np.array(self.scale_factor)
-        output, output_string = super(FileSample, self).output(*args, **kwargs)
+        if len(scale_factor):
+            self.scale_factor = np.array(scale_factor)
+        # Sample.output uses _i as the number of samples, rather than as the next file section
+        section, self._i = self._i, _x
+        try:
+            output, output_string = super(FileSample, self).output(*args, **kwargs)
+        finally:
+            self._i = section
         try:
             os.remove(self.fname)
         except Exception:
-- 
2.43.0


From b27e05f016554f1dc5508b46ec53fc85645279da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 34/97] fix: a new file-backed sample does not start from the
 working copy left behind by an earlier run

---
 src/MTfit/sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/sampling.py b/src/MTfit/sampling.py
index 067c55c..90b0fcc 100644
--- a/src/MTfit/sampling.py
+++ b/src/MTfit/sampling.py
@@ -338,7 +338,9 @@ class FileSample(Sample):
             try:
                 shutil.copy(self.fname, self.fname+'~')
             except IOError:
-                pass
+                # No samples yet, so a working copy can only be left over from an earlier run
+                if os.path.exists(self.fname+'~'):
+                    os.remove(self.fname+'~')
             self.fname += '~'
         if moment_tensors.shape[0]*moment_tensors.shape[1] > 0:  # Check there are samples
             if len(ln_pdf.nonzero()) != moment_tensors.shape[1]:
-- 
2.43.0


From cb827eefc4abdf9c0f3f7a74135f69fef9b8169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 35/97] fix: normalising an empty distribution is not an error
 in the pure-Python path, so an all-zero history has an (empty) output

---
 src/MTfit/probability/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index d6dad35..8dbb40f 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -930,7 +930,7 @@ def ln_normalise(ln_pdf, dV=1):
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     # scale and then marginalise:
     ln_scale = 0
-    if np.isfinite(ln_pdf.max()):
+    if np.prod(ln_pdf.shape) and np.isfinite(ln_pdf.max()):
         ln_scale = -ln_pdf.max()
     with warnings.catch_warnings() and np.errstate(divide='ignore'):
         warnings.simplefilter("ignore")
-- 
2.43.0


From eb5dc7d6b9867ccaca48299b074ebbac67a70708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 36/97] fix: the joint multi-event acceptance is min(1, product
 of the event ratios), for each try separately

---
 .../algorithms/cmarkov_chain_monte_carlo.pyx  | 75 +++++++++----------
 1 file changed, 35 insertions(+), 40 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index 068ed51..d8f145d 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -68,44 +68,39 @@ IF UNAME_SYSNAME == "Windows":
         cdef double t = 1.0/(1.0 + p*x)
         cdef double y = 1.0 - (((((a5*t + a4)*t) + a3)*t + a2)*t + a1)*t*exp(-x*x)
         return sign*y
-    
-    #no fmin so acceptance different to *nix
-    @cython.boundscheck(False)
-    @cython.wraparound(False)
-    @cython.nonecheck(False)
-    @cython.cdivision(True)
-    cdef DTYPE_t acceptance(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
-        cdef DTYPE_t acc
-        if jump>0:
-            if gamma==0.0 and delta==0.0:
-                #MT to DC
-                model_prior_ratio=p_dc/(1-p_dc)
-                acc=exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio
-            elif g0==0.0 and d0==0.0 :
-                #DC to MT
-                model_prior_ratio=(1-p_dc)/p_dc
-                acc=exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio            
-        else:   
-            acc=exp(ln_p-ln_p0)*transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0)
-        if acc<1:
-            return acc
-        return 1
+
+    cdef inline double fmin(double a, double b) nogil:
+        if b<a:
+            return b
+        return a
 ELSE:
     cdef DTYPE_t ND=tgamma(11.490)/(tgamma(5.745)*tgamma(5.745))*1.10452194071529090000
 
-    @cython.boundscheck(False)
-    @cython.wraparound(False)
-    @cython.nonecheck(False)
-    @cython.cdivision(True)
-    cdef DTYPE_t acceptance(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
-        if jump>0:
-            if gamma==0.0 and delta==0.0:
-                model_prior_ratio=p_dc/(1-p_dc)
-                return fmin(1,exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio)
-            elif g0==0.0 and d0==0.0 :
-                model_prior_ratio=(1-p_dc)/p_dc
-                return fmin(1,exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio)
-        return fmin(1,exp(ln_p-ln_p0)*transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0))
+#Metropolis-Hastings ratio (not limited to 1)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+@cython.nonecheck(False)
+@cython.cdivision(True)
+cdef DTYPE_t acceptance_ratio(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
+    cdef DTYPE_t model_prior_ratio
+    if jump>0:
+        if gamma==0.0 and delta==0.0:
+            #MT to DC
+            model_prior_ratio=p_dc/(1-p_dc)
+            return exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio
+        elif g0==0.0 and d0==0.0 :
+            #DC to MT
+            model_prior_ratio=(1-p_dc)/p_dc
+            return exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio
+    return exp(ln_p-ln_p0)*transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0)
+
+#Acceptance probability for a single event
+@cython.boundscheck(False)
+@cython.wraparound(False)
+@cython.nonecheck(False)
+@cython.cdivision(True)
+cdef DTYPE_t acceptance(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
+    return fmin(1,acceptance_ratio(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s,ln_p,ln_p0,jump,qg,qd,sg,sd,proposal_normalisation,p_dc))
 
 #Gaussian PDF
 @cython.boundscheck(False)
@@ -295,15 +290,15 @@ cdef int c_me_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ra
     for u in range(umax):
         if ln_p[u]==-inf:
             continue
+        if ln_p0==-inf:#Start of zero likelihood, so always move
+            return <int>u
+        acc=1
         for v in range(nevents):
             jump=0
             if ((g0[v]==0.0 and d0[v]==0.0) or (gamma[u,v]==0.0 and delta[u,v]==0.0)) and  not gamma[u,v]==g0[v] and not delta[u,v]==d0[v] and h0[v]==h[u,v] and s0[v]==sigma[u,v] and k0[v]==kappa[u,v]:#Check for jump
                 jump=1
-            acc*=acceptance(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma[u,v], delta[u,v], h[u,v], sigma[u,v], g0[v], g_s[v], d0[v], d_s[v], h0[v], h_s[v], s0[v], s_s[v], 0,0,jump,qg[u,v],qd[u,v],sg[v],sd[v],proposal_normalisation[v],p_dc[v])
-            if acc==0:
-                break
-        if v<nevents-1 or acc==0.0:#No acceptance, so no point in continuing
-            continue
+            #Product of the ratios over the events, limited to 1 only for the product
+            acc*=acceptance_ratio(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma[u,v], delta[u,v], h[u,v], sigma[u,v], g0[v], g_s[v], d0[v], d_s[v], h0[v], h_s[v], s0[v], s_s[v], 0,0,jump,qg[u,v],qd[u,v],sg[v],sd[v],proposal_normalisation[v],p_dc[v])
         acc*=exp(ln_p[u]-ln_p0)
         if acc>np.random.rand():
             return <int>u
-- 
2.43.0


From 20382797571215ba2e314703e6d842d296d17704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 37/97] fix: jumps between models use the flat prior density of
 the full moment tensor model in the compiled acceptance

---
 src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index d8f145d..7c94cc7 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -76,6 +76,9 @@ IF UNAME_SYSNAME == "Windows":
 ELSE:
     cdef DTYPE_t ND=tgamma(11.490)/(tgamma(5.745)*tgamma(5.745))*1.10452194071529090000
 
+#Density of the flat prior over the (gamma,delta) parameterisation of the full moment tensor model
+cdef DTYPE_t FLAT_MT_PRIOR=3/(pi*pi)
+
 #Metropolis-Hastings ratio (not limited to 1)
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -83,15 +86,19 @@ ELSE:
 @cython.cdivision(True)
 cdef DTYPE_t acceptance_ratio(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
     cdef DTYPE_t model_prior_ratio
+    cdef DTYPE_t flat=1.0
     if jump>0:
+        #The flat prior ratio is 1 within a model but not between models, as the models have different volumes
+        if prior_ratio_fn==&flat_prior_ratio:
+            flat=FLAT_MT_PRIOR
         if gamma==0.0 and delta==0.0:
             #MT to DC
             model_prior_ratio=p_dc/(1-p_dc)
-            return exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio
+            return exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)/flat*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio
         elif g0==0.0 and d0==0.0 :
             #DC to MT
             model_prior_ratio=(1-p_dc)/p_dc
-            return exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio
+            return exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)*flat/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio
     return exp(ln_p-ln_p0)*transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0)
 
 #Acceptance probability for a single event
-- 
2.43.0


From 85aa3f9646d0d006e21251914b228c53afd4f26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 38/97] fix: proposed strikes are wrapped into [0, 2pi)

---
 src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx | 5 +++--
 src/MTfit/algorithms/markov_chain_monte_carlo.py   | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index 7c94cc7..3f4a7c9 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -212,10 +212,11 @@ cdef DTYPE_t new_delta(DTYPE_t d0, DTYPE_t d_s):
 @cython.cdivision(True)
 cdef DTYPE_t new_kappa(DTYPE_t k0, DTYPE_t k_s):
     cdef DTYPE_t kn=k_s*np.random.randn(1)+k0
-    if fabs(kn)<PI2:
-        kn=fmod(kn,PI2)
+    kn=fmod(kn,PI2)
     if kn<0.0:
         kn+=PI2
+    if kn>=PI2:
+        kn=0.0
     return kn
 
 @cython.boundscheck(False)
diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 64be869..126f805 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1048,6 +1048,9 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
             x['delta'] = d
         # since strike 2*pi=strike 0 wrap round
         x['kappa'] = np.mod(self.alpha['kappa']*np.random.randn(1)+self.xi['kappa'], 2*np.pi)
+        if x['kappa'] >= 2*np.pi:
+            # rounding of a small negative strike
+            x['kappa'] = 0*x['kappa']
         h = self.alpha['h']*np.random.randn(1)+self.xi['h']
         while h > 1 or h < 0:
             # wrap h round and change strike by pi
-- 
2.43.0


From 34c7c4d483c1e92e643da16aa4632b1161881f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 39/97] fix: the balancing density of a model jump is
 normalised as it is drawn

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 126f805..3a52a29 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1294,9 +1294,8 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         # Set DC model prior
         self.dc_prior = kwargs.get('dc_prior', .5)
         # Calculate balance vector proposal normalisation
-        d = np.linspace(-np.pi/2, np.pi/2, 10000)
-        pn = sum(np.cos(d)*gaussian_pdf(d, 0, kwargs.get('dc_sigma_d', .2)) *
-                 np.mean(np.diff(d)))*(1-2*gaussian_cdf(-np.pi/6, 0, kwargs.get('dc_sigma_g', .2)))
+        # (probability that the gaussian draws lie in the lune)
+        pn = (1-2*gaussian_cdf(-np.pi/2, 0, kwargs.get('dc_sigma_d', .2)))*(1-2*gaussian_cdf(-np.pi/6, 0, kwargs.get('dc_sigma_g', .2)))
         # Add proposal normalisation to alpha
         if self.number_events > 1:
             for alpha in self.alpha:
-- 
2.43.0


From 59e8bb4deb6b830c8e6c328e2a3f612cebb17c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 40/97] fix: adapting the proposal widths keeps the balancing
 draw widths and never reaches zero

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 3a52a29..a26d034 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -448,9 +448,12 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         if isinstance(alpha, dict):
             newAlpha = {}
             for key in alpha.keys():
-                if key not in ['gamma_dc', 'delta_dc', 'proposal_normalisation']:
+                if key in ['gamma_dc', 'delta_dc', 'proposal_normalisation']:
+                    # balancing draw parameters are not adapted
+                    newAlpha[key] = alpha[key]
+                else:
                     newAlpha[key] = alpha[key]*ratio
-                    if newAlpha[key] > self.max_alpha[key]:
+                    if not 0 < newAlpha[key] <= self.max_alpha[key]:
                         newAlpha[key] = alpha[key]
         elif isinstance(alpha, list):
             newAlpha = []
@@ -458,7 +461,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                 newAlpha.append(self._modify_alpha(alph, ratio))
         else:
             newAlpha = alpha*ratio
-            if newAlpha > self.max_alpha:
+            if not 0 < newAlpha <= self.max_alpha:
                 newAlpha = alpha
         return newAlpha
 
-- 
2.43.0


From 9fa543f1e1f965854ad12c07e930fefcff9e3cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 41/97] fix: a first learning window accepting all or none of
 the proposals adapts the widths

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index a26d034..2e5bbc9 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -388,7 +388,8 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                 ratio = np.sqrt(self._old_ratio)
                 self._old_ratio = ratio
             except Exception:
-                ratio = 0
+                # no earlier alpha
+                ratio = 1/self.max_acceptance_rate
         elif not rate:
             # revert to old alpha and change ratio
             try:
@@ -399,7 +400,8 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                 ratio = self._old_ratio*self._old_ratio
                 self._old_ratio = ratio
             except Exception:
-                ratio = 0
+                # no earlier alpha
+                ratio = 0.1
         return ratio
 
     def output(self, *args, **kwargs):
-- 
2.43.0


From 7853392d178bea5c448483089becd8c430dce682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 42/97] fix: the chain start is always accepted, so it is never
 stored with a likelihood which is not its own

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 2e5bbc9..d11a094 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -793,7 +793,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         self.xi = self.x0
         self.xi_1 = self.x0
         self._tried = -1  # As this will always be accepted as initial sample
-        self.ln_likelihood_xi = 0
+        self.ln_likelihood_xi = -np.inf
         self.scale_factor_i = False
         gc.collect()
         return self.convert_sample(self.xi_1), False
-- 
2.43.0


From d0163cd3c818d6f64368ebd8de3b5865c9dd284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 43/97] fix: the configured double-couple prior and one-element
 log-likelihoods are used in every acceptance path

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index d11a094..2f91574 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -508,9 +508,9 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         """
         return 0
 
-    def _acceptance_check(self, xi_1, ln_pi_1, scale_factori_1, dc_prior=0.5):
+    def _acceptance_check(self, xi_1, ln_pi_1, scale_factori_1, dc_prior=None):
         """Calculate acceptance"""
-        if np.random.rand() <= self.acceptance(xi_1, ln_pi_1, dc_prior):
+        if np.random.rand() < self.acceptance(xi_1, ln_pi_1, dc_prior):
             return xi_1, ln_pi_1, scale_factori_1, 0
         else:
             return {}, False, False, 0
@@ -1395,7 +1395,7 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
                 delta = (np.random.rand()*2-1)*np.pi/2
             return gamma, delta
 
-    def acceptance(self, x, ln_likelihoodx, dc_prior=0.5):
+    def acceptance(self, x, ln_likelihoodx, dc_prior=None):
         """
         Calculates acceptance
 
@@ -1404,12 +1404,17 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         Args
             x: Model values
             ln_likelihoodx: Model likelihood.
+            dc_prior:[None] Prior probability of the DC model (default is the value from the initialisation)
 
         Returns
             float:acceptance
         """
-        if isinstance(self.ln_likelihood_xi, np.ndarray):
+        if dc_prior is None:
+            dc_prior = self.dc_prior
+        if isinstance(self.ln_likelihood_xi, (np.ndarray, LnPDF)):
             self.ln_likelihood_xi = float(self.ln_likelihood_xi)
+        if isinstance(ln_likelihoodx, (np.ndarray, LnPDF)):
+            ln_likelihoodx = float(ln_likelihoodx)
         # Handle jump parameters
         if self.jump and (self.ln_likelihood_xi > -np.inf):
             # No jump - may have been accidentally picked up
@@ -1644,7 +1649,7 @@ class IterativeMultipleTryMetropolisHastingsGaussianTape(IterativeMetropolisHast
                 # Get acceptance result
                 oxi_1, oln_pi_1, a, b = super(IterativeMultipleTryMetropolisHastingsGaussianTape, self)._acceptance_check(_xi_1, np.asarray(ln_pi_1).flatten()[u],
                                                                                                                           False, dc_prior=getattr(self, 'dc_prior', False))
-                if oln_pi_1:
+                if not isinstance(oln_pi_1, bool):
                     # If accepted sample, try to get the sacale_factor
                     if not isinstance(scale_factori_1, bool):
                         oscale_factori_1 = scale_factori_1[u]
-- 
2.43.0


From cdc255964fe8f3bd7cc12c680a2d1a982302dc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 44/97] fix: multiple-event proposals in the pure-Python path
 follow the model of each event

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 2f91574..68c81ef 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1102,15 +1102,19 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
             if not isinstance(all_x, list):
                 raise TypeError('Expect self.xi to be list not {}\n self.xi = {}'.format(type(self.xi), self.xi))
             all_alpha = self.alpha
+            all_dc = self.dc
             x = []
             if not isinstance(all_x[0], dict):
                 all_x = self.convert_sample(all_x)
             for i, xi in enumerate(all_x):
                 self.xi = xi
                 self.alpha = all_alpha[i]
+                if isinstance(all_dc, list):
+                    self.dc = all_dc[i]
                 x.append(self._new_sample_single(*args, **kwargs))
             self.xi = all_x
             self.alpha = all_alpha
+            self.dc = all_dc
         else:
             x = self._new_sample_single(*args, **kwargs)
         self.xi_1 = x
-- 
2.43.0


From 465a6dd5cd586b979a0c51e2b2f5934c81fcee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 45/97] fix: trans-dimensional joint states have an acceptance
 in the pure-Python path

---
 .../algorithms/markov_chain_monte_carlo.py    | 51 ++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 68c81ef..e1c78b5 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1419,6 +1419,8 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
             self.ln_likelihood_xi = float(self.ln_likelihood_xi)
         if isinstance(ln_likelihoodx, (np.ndarray, LnPDF)):
             ln_likelihoodx = float(ln_likelihoodx)
+        if self.number_events > 1:
+            return self._multiple_events_acceptance(x, ln_likelihoodx, dc_prior)
         # Handle jump parameters
         if self.jump and (self.ln_likelihood_xi > -np.inf):
             # No jump - may have been accidentally picked up
@@ -1446,6 +1448,53 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         else:
             return super(IterativeTransDMetropolisHastingsGaussianTape, self).acceptance(x, ln_likelihoodx)
 
+    def _multiple_events_acceptance(self, x, ln_likelihoodx, dc_prior):
+        """
+        Calculates the acceptance for joint multiple event states, where each event may have jumped
+
+        Args
+            x: list of model values for each event
+            ln_likelihoodx: Joint model likelihood.
+            dc_prior: DC model prior (or an array of priors for each event)
+
+        Returns
+            float:acceptance
+        """
+        if ln_likelihoodx == -np.inf:
+            return 0
+        if self.ln_likelihood_xi == -np.inf:
+            return 1
+        dc_priors = np.asarray(dc_prior, dtype=float).flatten()
+        all_alpha = self.alpha
+        ratio = 1.
+        try:
+            for i, x_i in enumerate(x):
+                xi = self.xi[i]
+                p_dc = dc_priors[i if len(dc_priors) > 1 else 0]
+                self.alpha = all_alpha[i]
+                dc = self.is_dc(xi)
+                numerator = self.prior(x_i, self.is_dc(x_i))
+                denominator = self.prior(xi, dc)
+                if dc and not self.is_dc(x_i):
+                    # dc to mt jump
+                    numerator *= 1-p_dc
+                    denominator *= p_dc*self.jump_params(x_i)
+                elif self.is_dc(x_i) and not dc:
+                    # mt to dc jump
+                    numerator *= p_dc*self.jump_params(xi)
+                    denominator *= 1-p_dc
+                elif not all(xi[key] == x_i[key] for key in ['kappa', 'h', 'sigma']):
+                    numerator *= self.transition_pdf(xi, x_i, dc)
+                    denominator *= self.transition_pdf(x_i, xi, dc)
+                if denominator == 0:
+                    # 0 probability values for acceptance denominator so acc is
+                    # infinite --> set to 1
+                    return 1
+                ratio *= float(numerator/denominator)
+        finally:
+            self.alpha = all_alpha
+        return min(1, ratio*np.exp(ln_likelihoodx-self.ln_likelihood_xi))
+
     def iterate(self, *args, **kwargs):
         """
         Iterates new sample
@@ -1460,7 +1509,7 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
             elif isinstance(self.p_dc, list):
                 for i, pdc in enumerate(self.p_dc):
                     logging.info('Event - {} Probability of dc: {:.6f}'.format(i, float(pdc)/float(len(self.pdf_sample.ln_pdf))))
-        if self.jump:
+        if self.jump and self.number_events == 1:
             # check current sample
             self.dc = (self.xi['gamma'] == 0.0 and self.xi['delta'] == 0.0)
         return MTs, end
-- 
2.43.0


From 3dbb959af78510c633fae8c1ad1860cc1926715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 46/97] fix: every try rejected before the accepted one repeats
 the chain state

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index e1c78b5..f68b25c 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -719,8 +719,10 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                     self.xi_1, ln_pi_1, result.get('scale_factor', False))
                 # returns dict not array/list of arrays
                 if (self.number_events == 1 and len(xi_1)) or (self.number_events > 1 and all([len(u) for u in xi_1]) and len(xi_1)):
-                    # Handling for multiple tries (agnostic)
-                    for i in range(tried-1):
+                    # Handling for multiple tries (agnostic) - tried is the
+                    # index of the accepted sample, i.e. the number of samples
+                    # rejected before it
+                    for i in range(tried):
                         # Add old samples for tried but not accepted samples
                         self._add_old(i)
                     self._add_new(xi_1, ln_pi_1, scale_factor_i)
-- 
2.43.0


From ad1e2424b0a50b57c91c2f6d0acfb1dd26152a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 47/97] fix: the number of tries is only adapted while learning

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index f68b25c..ca8ef87 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1658,7 +1658,7 @@ class IterativeMultipleTryMetropolisHastingsGaussianTape(IterativeMetropolisHast
                                                                                               dc_prior=getattr(self, 'dc_prior', 0.))
                 # No accepted samples, so increase the number of test samples if in
                 # learning period
-                if isinstance(ln_pi_1, bool) and self.learning_check:
+                if isinstance(ln_pi_1, bool) and self.learning_check():
                     self._number_samples = min([self._max_number_samples, max(int(1.1*self._number_samples), self._number_samples+1)])
                 elif self.learning_check() and min([120*(max(index, 1)), int(self._number_samples)]) != self._number_samples:
                     # Handle too many samples
-- 
2.43.0


From cbbe60c370cbc8f64635651c4e1edb1ddf712a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 48/97] fix: the first recorded state and the tried and
 accepted counts are the same for single and multiple tries

---
 .../algorithms/markov_chain_monte_carlo.py    | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index ca8ef87..898fb69 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -340,7 +340,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
             float: acceptance rate.
         """
         try:
-            if self._number_learning_accepted < self.learning_length or not self._tried:
+            if self._number_learning_accepted < self.learning_length or self._tried <= 0:
                 rate = float(sum(self._learning_accepted))/len(self._learning_accepted)
             else:
                 rate = self._accepted/float(self._tried)
@@ -580,23 +580,35 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         if self.number_events > 1:
             for i, xi in enumerate(self.xi):
                 if 'gamma' in xi and xi['gamma'] == 0 and xi['delta'] == 0:
-                    if not self.learning_check():
-                        self.p_dc[i] += 1
                     self.dc[i] = True
                 else:
                     self.dc[i] = False
         # TODO handle warning about element wise comparison - sometimes output is a single element array
         # need to tidy output/array passing
         elif 'gamma' in self.xi and self.xi['gamma'] == 0 and self.xi['delta'] == 0:
-            if not self.learning_check():
-                self.p_dc += 1
             self.dc = True
         else:
             self.dc = False
         self.scale_factor_i = scale_factori_1
         if not self.learning_check():
-            self.pdf_sample.append(self.convert_sample(xi_1), ln_pi_1, 1, scale_factori_1)
-            self._tried += 1
+            self._append_chain(xi_1, ln_pi_1, scale_factori_1)
+            if self._tried == 0:
+                # First recorded state is held for one extra sample (accepted
+                # from the initialisation)
+                self._accepted += 1
+                self._append_chain(xi_1, ln_pi_1, scale_factori_1)
+
+    def _append_chain(self, xi, ln_pi, scale_factori):
+        """Append the current state to the recorded chain"""
+        # MULTIPLE_EVENTS
+        if self.number_events > 1:
+            for i, dc in enumerate(self.dc):
+                if dc:
+                    self.p_dc[i] += 1
+        elif self.dc:
+            self.p_dc += 1
+        self.pdf_sample.append(self.convert_sample(xi), ln_pi, 1, scale_factori)
+        self._tried += 1
 
     def iterate(self, result):
         """
@@ -744,7 +756,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                 self._learning_accepted = []
             # Not in learning
             if not self.learning_check():
-                if self._tried == 0:  # First sample
+                if self._tried < 0:  # Learning has just completed
                     # Check and modify transition PDF parameters if within 25%
                     # of the acceptance_rate_window
                     if len(self._learning_accepted[-self.acceptance_rate_window:]) > 0.75*self.acceptance_rate_window:
@@ -757,8 +769,6 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                     logger.info("\nLearning elapsed time: {}".format(t1-self.t0))
                     logger.info("\n\nStarting main inversion\n---------")
                     self.t0 = t1
-                    # Add sample (added to saved chain)
-                    self._add_new(self.xi, self.ln_likelihood_xi, self.scale_factor_i)
                 elif not self._tried % 100:
                     logger.info('{} samples tried: {} samples accepted'.format(self._tried, self._accepted))
             gc.collect()
-- 
2.43.0


From 635fbdfde7aa01e312ea78a029c61789a7f68915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 49/97] fix: multiple-try chains stop at the configured chain
 length

---
 .../algorithms/markov_chain_monte_carlo.py    | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 898fb69..188e724 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -515,6 +515,10 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         else:
             return {}, False, False, 0
 
+    def _chain_complete(self):
+        """Check if the number of tried samples has reached the chain length (if there is one)"""
+        return False
+
     def learning_check(self):
         """Check if still in learning period"""
         return self._number_learning_accepted < self.learning_length
@@ -736,14 +740,18 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                     # rejected before it
                     for i in range(tried):
                         # Add old samples for tried but not accepted samples
-                        self._add_old(i)
-                    self._add_new(xi_1, ln_pi_1, scale_factor_i)
+                        if not self._chain_complete():
+                            self._add_old(i)
+                    if not self._chain_complete():
+                        self._add_new(xi_1, ln_pi_1, scale_factor_i)
                 else:
                     # Handling for multiple tries (agnostic)
                     for i in range(tried-1):
                         # Add old samples for tried but not accepted samples
-                        self._add_old(i)
-                    self._add_old()  # Add old sample as non-accepted
+                        if not self._chain_complete():
+                            self._add_old(i)
+                    if not self._chain_complete():
+                        self._add_old()  # Add old sample as non-accepted
             # Check if need to do learning transition PDF update
             if self.learning_check() and len(self._learning_accepted) >= self.acceptance_rate_window:
                 self._modify_acceptance_rate()
@@ -1252,6 +1260,10 @@ class IterativeMetropolisHastingsGaussianTape(MarginalisedMetropolisHastingsGaus
         super(IterativeMetropolisHastingsGaussianTape, self).__init__(*args, **kwargs)
         self.chain_length = kwargs.get('chain_length', 1000000)
 
+    def _chain_complete(self):
+        """Check if the number of tried samples has reached the chain length"""
+        return self._tried >= self.chain_length
+
     def iterate(self, result):
         """
         Iterate from result
@@ -1265,7 +1277,7 @@ class IterativeMetropolisHastingsGaussianTape(MarginalisedMetropolisHastingsGaus
         """
         task, end = super(IterativeMetropolisHastingsGaussianTape, self).iterate(result)
         # Check chain length
-        if self._tried >= self.chain_length:
+        if self._chain_complete():
             self._t1 = time.time()
             logger.info('\nChain complete\nChain elapsed time: {}\n'.format(self._t1-self.t0))
             return [], True
-- 
2.43.0


From e34ac56375a2c2087c8f8b07c0a3a53781cffea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 50/97] fix: the reported double-couple probability is the
 fraction of the chain entries

---
 .../algorithms/markov_chain_monte_carlo.py    | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 188e724..a2ddb1c 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1528,11 +1528,12 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         MTs, end = super(IterativeTransDMetropolisHastingsGaussianTape, self).iterate(*args, **kwargs)
         # Print pDC output
         if end:
-            if isinstance(self.p_dc, float):
-                logging.info('Probability of dc: {:.6f}'.format(float(self.p_dc)/float(len(self.pdf_sample.ln_pdf))))
-            elif isinstance(self.p_dc, list):
-                for i, pdc in enumerate(self.p_dc):
-                    logging.info('Event - {} Probability of dc: {:.6f}'.format(i, float(pdc)/float(len(self.pdf_sample.ln_pdf))))
+            p_dc = self._dc_fraction()
+            if isinstance(p_dc, list):
+                for i, pdc in enumerate(p_dc):
+                    logging.info('Event - {} Probability of dc: {:.6f}'.format(i, pdc))
+            else:
+                logging.info('Probability of dc: {:.6f}'.format(p_dc))
         if self.jump and self.number_events == 1:
             # check current sample
             self.dc = (self.xi['gamma'] == 0.0 and self.xi['delta'] == 0.0)
@@ -1545,9 +1546,16 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         Return output dict including pDC value
         """
         output, output_string = super(IterativeTransDMetropolisHastingsGaussianTape, self).output(*args, **kwargs)
-        output['pDC'] = self.p_dc
+        output['pDC'] = self._dc_fraction()
         return output, output_string
 
+    def _dc_fraction(self):
+        """Fraction of the chain entries that are double-couple (a list for multiple events)"""
+        number_entries = float(max(self.pdf_sample.ln_pdf.shape[-1], 1))
+        if isinstance(self.p_dc, list):
+            return [pdc/number_entries for pdc in self.p_dc]
+        return self.p_dc/number_entries
+
 
 class IterativeMultipleTryMetropolisHastingsGaussianTape(IterativeMetropolisHastingsGaussianTape):
 
-- 
2.43.0


From 1e116d068486deff2983ef88421b9762a04353eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 51/97] fix: a double-couple constrained chain starts at, and
 stays on, double-couple sources with a grid start

---
 .../algorithms/markov_chain_monte_carlo.py    | 40 ++++++++++++++-----
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index a2ddb1c..04c2a8f 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -249,6 +249,9 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
 
     # Returns zero for testing - should be set in __init__
     default_sampling_priors = {'uniform_prior': zero_prior}
+    # Flag for chains which can jump between the double-couple and full moment
+    # tensor models (otherwise the model is fixed by the dc argument)
+    _trans_dimensional = False
 
     def __init__(self, *args, **kwargs):
         """
@@ -279,7 +282,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         # Handle initial sampling - either random sampling or single
         # sampling/initial sample.
         if kwargs.get('initial_sample', '').lower() == 'grid':
-            self._initialiser = IterationSample(number_samples=kwargs.get('number_samples', 10000))
+            self._initialiser = IterationSample(number_samples=kwargs.get('number_samples', 10000), dc=self.dc)
             self._initialising = False
             self.x0 = None
             self._number_initialisation_samples = 0
@@ -583,16 +586,12 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         # MULTIPLE_EVENTS
         if self.number_events > 1:
             for i, xi in enumerate(self.xi):
-                if 'gamma' in xi and xi['gamma'] == 0 and xi['delta'] == 0:
-                    self.dc[i] = True
-                else:
-                    self.dc[i] = False
+                if self._trans_dimensional:
+                    self.dc[i] = bool('gamma' in xi and xi['gamma'] == 0 and xi['delta'] == 0)
         # TODO handle warning about element wise comparison - sometimes output is a single element array
         # need to tidy output/array passing
-        elif 'gamma' in self.xi and self.xi['gamma'] == 0 and self.xi['delta'] == 0:
-            self.dc = True
-        else:
-            self.dc = False
+        elif self._trans_dimensional:
+            self.dc = bool('gamma' in self.xi and self.xi['gamma'] == 0 and self.xi['delta'] == 0)
         self.scale_factor_i = scale_factori_1
         if not self.learning_check():
             self._append_chain(xi_1, ln_pi_1, scale_factori_1)
@@ -694,7 +693,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                     # ADDED DJP 1/9/14 - check values  - killed as alpha large already
                     #
                     # Convert initial sample
-                    self.x0 = self.convert_sample(self._init_max_mt)
+                    self.x0 = self._constrain(self.convert_sample(self._init_max_mt))
                     # Initialise samples
                     self.xi = self.x0
                     self.xi_1 = self.x0
@@ -809,6 +808,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
             self.x0 = self.random_sample()
         if not isinstance(self.x0, (dict, list)):
             self.x0 = self.convert_sample(self.x0)
+        self.x0 = self._constrain(self.x0)
         # Set initialse sample parameters
         self.xi = self.x0
         self.xi_1 = self.x0
@@ -818,6 +818,24 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         gc.collect()
         return self.convert_sample(self.xi_1), False
 
+    def _constrain(self, x):
+        """
+        Constrains the converted start of the chain to the model of the chain
+
+        Rounding in the conversion means that the source type parameters of a
+        double-couple moment tensor are not exactly 0.
+        """
+        if self.number_events > 1:
+            if isinstance(x, list):
+                for xi, dc in zip(x, self.dc):
+                    if dc and isinstance(xi, dict):
+                        xi['gamma'] = 0.0
+                        xi['delta'] = 0.0
+        elif self.dc and isinstance(x, dict):
+            x['gamma'] = 0.0
+            x['delta'] = 0.0
+        return x
+
     def _convert_sample_single(self, x):
         """
         Converts single event sample to MT form
@@ -1298,6 +1316,8 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
 
     """
 
+    _trans_dimensional = True
+
     def __init__(self, *args, **kwargs):
         """
         Initialisation of Trans-Dimensional Metropolis-Hastings Markov chain Monte Carlo Algorithm using Gaussian Transition PDF and Tape parameterisation, chain length ends maximum length
-- 
2.43.0


From 5fd7a1f6d7ce4ad68e8696f0ea6339a545d9bff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 52/97] fix: a jump to or from a full moment tensor with one
 zero source-type parameter is a jump in the compiled acceptance

---
 src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index 3f4a7c9..d3bc35a 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -276,7 +276,7 @@ cdef int c_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ratio
     cdef DTYPE_t acc=0
     for u in range(umax):
         jump=0
-        if ((g0==0.0 and d0==0.0) or (gamma[u]==0.0 and delta[u]==0.0)) and  not gamma[u]==g0 and not delta[u]==d0 and h0==h[u] and s0==sigma[u] and k0==kappa[u]:
+        if ((g0==0.0 and d0==0.0) or (gamma[u]==0.0 and delta[u]==0.0)) and  not (gamma[u]==g0 and delta[u]==d0) and h0==h[u] and s0==sigma[u] and k0==kappa[u]:
             jump=1
         if ln_p[u]==-inf:
             continue
@@ -303,7 +303,7 @@ cdef int c_me_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ra
         acc=1
         for v in range(nevents):
             jump=0
-            if ((g0[v]==0.0 and d0[v]==0.0) or (gamma[u,v]==0.0 and delta[u,v]==0.0)) and  not gamma[u,v]==g0[v] and not delta[u,v]==d0[v] and h0[v]==h[u,v] and s0[v]==sigma[u,v] and k0[v]==kappa[u,v]:#Check for jump
+            if ((g0[v]==0.0 and d0[v]==0.0) or (gamma[u,v]==0.0 and delta[u,v]==0.0)) and  not (gamma[u,v]==g0[v] and delta[u,v]==d0[v]) and h0[v]==h[u,v] and s0[v]==sigma[u,v] and k0[v]==kappa[u,v]:#Check for jump
                 jump=1
             #Product of the ratios over the events, limited to 1 only for the product
             acc*=acceptance_ratio(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma[u,v], delta[u,v], h[u,v], sigma[u,v], g0[v], g_s[v], d0[v], d_s[v], h0[v], h_s[v], s0[v], s_s[v], 0,0,jump,qg[u,v],qd[u,v],sg[v],sd[v],proposal_normalisation[v],p_dc[v])
-- 
2.43.0


From 19754c805f305246925b705a51b4c41e0a3f3634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 53/97] fix: a jump to a zero-likelihood source is never
 accepted, also from a state of zero prior

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 04c2a8f..1fe9817 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1463,6 +1463,9 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
             self.ln_likelihood_xi = float(self.ln_likelihood_xi)
         if isinstance(ln_likelihoodx, (np.ndarray, LnPDF)):
             ln_likelihoodx = float(ln_likelihoodx)
+        # Zero likelihood proposals are never accepted
+        if ln_likelihoodx == -np.inf:
+            return 0
         if self.number_events > 1:
             return self._multiple_events_acceptance(x, ln_likelihoodx, dc_prior)
         # Handle jump parameters
-- 
2.43.0


From e5dabb419e78dec9bc879f02c73a7c58d5237f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:13 +0000
Subject: [PATCH 54/97] fix: the flat balancing draw is uniform over the lune
 parameters in the compiled path too

---
 src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index d3bc35a..297b9da 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -318,7 +318,7 @@ cdef int c_me_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ra
 @cython.nonecheck(False)
 @cython.cdivision(True)
 cdef inline tuple flat_jump_params(DTYPE_t a,DTYPE_t b,):
-    return  (np.random.rand()*2-1)*pi/6,acos(np.random.rand()*2-1)-pi/2
+    return  (np.random.rand()*2-1)*pi/6,(np.random.rand()*2-1)*pi/2
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 5ec896e17613d9a108ca3c9f4e2666da109865ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 55/97] fix: a single proposal width is restored like the
 widths of several parameters

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 1fe9817..5af7970 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -386,8 +386,10 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
             try:
                 if type(self.alpha) == dict:
                     self.alpha = self._old_alpha.copy()
-                else:  # list
+                elif type(self.alpha) == list:
                     self.alpha = self._old_alpha[:]
+                else:
+                    self.alpha = self._old_alpha
                 ratio = np.sqrt(self._old_ratio)
                 self._old_ratio = ratio
             except Exception:
@@ -398,8 +400,10 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
             try:
                 if type(self.alpha) == dict:
                     self.alpha = self._old_alpha.copy()
-                else:  # list
+                elif type(self.alpha) == list:
                     self.alpha = self._old_alpha[:]
+                else:
+                    self.alpha = self._old_alpha
                 ratio = self._old_ratio*self._old_ratio
                 self._old_ratio = ratio
             except Exception:
-- 
2.43.0


From 0441fad0933bac27e8ae712c3a7db88e83ba3854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 56/97] fix: each event of a joint chain starts from its own
 random sample

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 5af7970..1927b36 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -809,7 +809,15 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
             self._number_initialisation_samples += self._initialiser.number_samples
             return self._initialiser.initialise()
         if not isinstance(self.x0, (np.ndarray, dict, list)):
-            self.x0 = self.random_sample()
+            if self.number_events > 1:
+                # Each event starts from its own sample (in its own model)
+                models = self.dc
+                self.x0 = []
+                for self.dc in models:
+                    self.x0.append(self.random_sample())
+                self.dc = models
+            else:
+                self.x0 = self.random_sample()
         if not isinstance(self.x0, (dict, list)):
             self.x0 = self.convert_sample(self.x0)
         self.x0 = self._constrain(self.x0)
-- 
2.43.0


From f545462530c7c1de423d65c09863a2b2a9e3bf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 57/97] fix: a Markov chain run in the pool gets its arguments
 in order and returns its file name, so its output is written

---
 src/MTfit/inversion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 8eb42d9..afa1492 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -468,7 +468,7 @@ class McMCForwardTask(object):
         # Get output data and print results
         output_data, output_string = self.algorithm.output(self.normalise, self.convert, 0)
         return {'algorithm_output_data': output_data, 'event_data': self.event_data, 'location_samples': self.location_samples,
-                'location_sample_multipliers': self.location_sample_multipliers}
+                'location_sample_multipliers': self.location_sample_multipliers, 'fid': self.fid}
 
 
 class MultipleEventsForwardTask(object):
@@ -1028,7 +1028,7 @@ class MultipleEventsMcMCForwardTask(McMCForwardTask):
         # Print output string
         print(output_string)
         return {'algorithm_output_data': output_data, 'event_data': self.event_data, 'location_samples': self.location_samples,
-                'location_sample_multipliers': self.location_sample_multipliers}
+                'location_sample_multipliers': self.location_sample_multipliers, 'fid': self.fid}
 
 
 class CombineMpiOutputTask(object):
@@ -2257,7 +2257,7 @@ class Inversion(object):
 
                     self.pool.custom_task(McMCForwardTask, self.kwargs, a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio, percentage_error1_amplitude_ratio,
                                           percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, incorrect_polarity_probability, fid, event, self.location_samples,
-                                          self.location_sample_multipliers, self.normalise, self.convert, extension_data)
+                                          self.location_sample_multipliers, True, self.normalise, self.convert, extension_data)
                 else:
                     result = McMCForwardTask(self.kwargs, a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio, percentage_error1_amplitude_ratio,
                                              percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, incorrect_polarity_probability, fid, normalise=self.normalise,
-- 
2.43.0


From 34d67c86c6e87902284c3d6f58af568670f9c69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 58/97] fix: a Markov chain run outside the pool uses the
 location sample weights

---
 src/MTfit/inversion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index afa1492..2ddfca1 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2260,7 +2260,8 @@ class Inversion(object):
                                           self.location_sample_multipliers, True, self.normalise, self.convert, extension_data)
                 else:
                     result = McMCForwardTask(self.kwargs, a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio, percentage_error1_amplitude_ratio,
-                                             percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, incorrect_polarity_probability, fid, normalise=self.normalise,
+                                             percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, incorrect_polarity_probability, fid,
+                                             location_sample_multipliers=self.location_sample_multipliers, normalise=self.normalise,
                                              convert=self.convert, extension_data=extension_data)()
                     try:
                         accepted = (float(result['algorithm_output_data']['accepted'])/float(result['algorithm_output_data']['total_number_samples']))*100
@@ -2400,7 +2401,7 @@ class Inversion(object):
                                                        amplitude_ratio, percentage_error1_amplitude_ratio, percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability,
                                                        a_relative_amplitude, relative_amplitude, percentage_error_relative_amplitude, relative_amplitude_stations, incorrect_polarity_probability,
                                                        relative=self._relative, minimum_number_intersections=self.minimum_number_intersections, fid=fid, location_samples=self.location_samples,
-                                                       marginalise_relative=self._marginalise_relative, normalise=self.normalise, convert=self.convert, extension_data=extension_data)()
+                                                       location_sample_multipliers=self.location_sample_multipliers, marginalise_relative=self._marginalise_relative, normalise=self.normalise, convert=self.convert, extension_data=extension_data)()
                 self._print('Inversion completed, '+str(result['algorithm_output_data']['total_number_samples'])+' samples evaluated: '+str((result['algorithm_output_data']['accepted'])) +
                             ' accepted samples: '+str((float(result['algorithm_output_data']['accepted'])/float(result['algorithm_output_data']['total_number_samples']))*100)[:4]+'%')
                 try:
-- 
2.43.0


From 9aeebf6faa1854075e093bf94293faf7bccd449e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 59/97] fix: a joint Markov chain run in the pool is written
 with the data of all the events

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 2ddfca1..5e3826b 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2377,7 +2377,7 @@ class Inversion(object):
                                       amplitude_ratio, percentage_error1_amplitude_ratio, percentage_error2_amplitude_ratio, a_polarity_probability,
                                       polarity_probability, a_relative_amplitude, relative_amplitude, percentage_error_relative_amplitude,
                                       relative_amplitude_stations, incorrect_polarity_probability, self._relative, self.minimum_number_intersections,
-                                      fid, event, self.location_samples, self.location_sample_multipliers, self._marginalise_relative, self.normalise,
+                                      fid, self.data, self.location_samples, self.location_sample_multipliers, self._marginalise_relative, self.normalise,
                                       self.convert, extension_data)
 
                 result = self.pool.result()
-- 
2.43.0


From e60cc3d0000b295f13ce534ba7007ee6b6ffcbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:01 +0000
Subject: [PATCH 60/97] fix: a double-couple constrained Markov chain inversion
 constrains the chain

---
 src/MTfit/inversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 5e3826b..2e87aee 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -1674,6 +1674,9 @@ class Inversion(object):
                 self.kwargs['number_samples'] = self.number_samples
             if self._algorithm_name.lower() in get_extensions('MTfit.directed_algorithms')[0]:
                 kwargs['mode'] = self._algorithm_name.lower()
+            # Model constraint of the chain
+            kwargs['dc'] = self.dc
+            self.kwargs['dc'] = self.dc
             self.McMC = True
             self.algorithm = MarkovChainMonteCarloAlgorithmCreator(**kwargs)
 
-- 
2.43.0


From a0ef93fc740dd12e335b107fc3298202c832094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 61/97] fix: a state reached by a jump to the double-couples
 does not keep the jump parameters

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 1927b36..ec9a8ae 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -584,7 +584,12 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
 
     def _add(self, xi_1, ln_pi_1, scale_factori_1):
         """Add result xi_1 with ln_pdf ln_pi_1"""
-        self.xi = xi_1  # Set new sample to old sample
+        # Set new sample to old sample, without the balancing parameters of the
+        # jump that led there (they are not part of the state)
+        if isinstance(xi_1, list):
+            self.xi = [self._without_jump_params(x) for x in xi_1]
+        else:
+            self.xi = self._without_jump_params(xi_1)
         # set old ln_likelihood to new ln_likelihood
         self.ln_likelihood_xi = float(ln_pi_1)
         # MULTIPLE_EVENTS
@@ -605,6 +610,13 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                 self._accepted += 1
                 self._append_chain(xi_1, ln_pi_1, scale_factori_1)
 
+    @staticmethod
+    def _without_jump_params(x):
+        """Remove the balancing parameters of a double-couple jump from the sample"""
+        if isinstance(x, dict) and 'g0' in x:
+            return dict((key, x[key]) for key in x if key not in ['g0', 'd0'])
+        return x
+
     def _append_chain(self, xi, ln_pi, scale_factori):
         """Append the current state to the recorded chain"""
         # MULTIPLE_EVENTS
-- 
2.43.0


From 05b75aefd8b3a68034da741920beac7328ed28ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 62/97] fix: the double-couple fraction only counts the entries
 of the chain

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index ec9a8ae..40364b9 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -619,8 +619,11 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
 
     def _append_chain(self, xi, ln_pi, scale_factori):
         """Append the current state to the recorded chain"""
+        if self.ln_likelihood_xi == -np.inf:
+            # Not stored as an entry of the chain (zero probability start)
+            pass
         # MULTIPLE_EVENTS
-        if self.number_events > 1:
+        elif self.number_events > 1:
             for i, dc in enumerate(self.dc):
                 if dc:
                     self.p_dc[i] += 1
-- 
2.43.0


From aa1f663a2086c168d643b54b20b51f514120ad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 63/97] fix: the shared stations of a pair of events are
 matched by name, whatever their order

---
 src/MTfit/inversion.py | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 2e87aee..1489196 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -3150,6 +3150,29 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
     return a_relative_amplitude, relative_amplitude, percentage_error, relative_amplitude_stations
 
 
+def _intersection_indices(stations_i, stations_j):
+    """
+    Determine the indices of the stations which are in both lists, paired so that the nth index of each list is the same station
+
+    Args
+        stations_i: List of stations corresponding to the data from event_i
+        stations_j: List of stations corresponding to the data from event_j
+
+    Returns
+        indices_i, indices_j: lists of the indices of the common stations for event_i and event_j
+    """
+    remaining_j = {}
+    for j, station in enumerate(stations_j):
+        remaining_j.setdefault(station, []).append(j)
+    indices_i = []
+    indices_j = []
+    for i, station in enumerate(stations_i):
+        if remaining_j.get(station):
+            indices_i.append(i)
+            indices_j.append(remaining_j[station].pop(0))
+    return indices_i, indices_j
+
+
 def _intersect_stations(relative_amplitude_stations_i, relative_amplitude_stations_j, a_relative_amplitude_ratio_i, a_relative_amplitude_ratio_j,
                         relative_amplitude_i, relative_amplitude_j, percentage_error_relative_amplitude_i, percentage_error_relative_amplitude_j):
     """
@@ -3175,11 +3198,8 @@ def _intersect_stations(relative_amplitude_stations_i, relative_amplitude_statio
         number_intersections: integer number of intersections between event_i and event_j.
 
     """
-    # Get intersection of stations between events
-    selected_stations = list(set(relative_amplitude_stations_i) & set(relative_amplitude_stations_j))
-    # Get indices for each event
-    indices_i = [i for i, u in enumerate(relative_amplitude_stations_i) if u in selected_stations]
-    indices_j = [i for i, u in enumerate(relative_amplitude_stations_j) if u in selected_stations]
+    # Get the indices of the stations recorded by both events (in the order of event i)
+    indices_i, indices_j = _intersection_indices(relative_amplitude_stations_i, relative_amplitude_stations_j)
     # Get parameters for event i
     a_relative_amplitude_ratio_i = a_relative_amplitude_ratio_i[indices_i]
     relative_amplitude_i = relative_amplitude_i[indices_i]
@@ -3208,13 +3228,8 @@ def _intersect_stations_extension_data(extension_data_i, extension_data_j):
         number_intersections: integer number of intersections between event_i and event_j.
 
     """
-    # Get intersection of stations between events
-    stations_i = extension_data_i['stations']
-    stations_j = extension_data_j['stations']
-    selected_stations = list(set(stations_i) & set(stations_j))
-    # Get indices for each event
-    indices_i = [i for i, u in enumerate(stations_i) if u in selected_stations]
-    indices_j = [i for i, u in enumerate(stations_j) if u in selected_stations]
+    # Get the indices of the stations recorded by both events (in the order of event i)
+    indices_i, indices_j = _intersection_indices(extension_data_i['stations'], extension_data_j['stations'])
     # Get parameters for event i
     for key in extension_data_i:
         extension_data_i[key] = np.ascontiguousarray(extension_data_i[key][indices_i])
-- 
2.43.0


From 62b8b7ecf62d7caecd3d2082aa4effa88ea0f3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 64/97] fix: relative amplitudes of different phases at the
 same station are not compared with each other

---
 src/MTfit/inversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 1489196..848ddc0 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -3124,7 +3124,7 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
                 sample['Azimuth'] = sample['Azimuth'][indices]
                 angles[:, i, :] = station_angles(sample, phase)
             angles = np.array(angles)
-            relative_amplitude_stations.extend(selected_stations)
+            relative_amplitude_stations.extend([(u, phase) for u in selected_stations])
             indices = [data[key]['Stations']['Name'].index(u) for u in selected_stations]
             measured = np.array(data[key]['Measured'][indices]).flatten()
             error = np.array(data[key]['Error'][indices]).flatten()
@@ -3132,7 +3132,7 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
         else:
             angles = np.zeros((np.prod(data[key]['Stations']['TakeOffAngle'].shape), 1, 6))
             angles[:, 0, :] = station_angles(data[key]['Stations'], phase)
-            relative_amplitude_stations.extend(data[key]['Stations']['Name'])
+            relative_amplitude_stations.extend([(u, phase) for u in data[key]['Stations']['Name']])
             measured = np.array(data[key]['Measured']).flatten()
             error = np.array(data[key]['Error']).flatten()
         # Set or append to outputs
-- 
2.43.0


From e9571dc46310aeb9d846dfa683899f3c1767b5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 65/97] fix: the relative term of a pair uses the sources left
 by the zero filtering of the previous pair

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 848ddc0..bab7dee 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -697,7 +697,7 @@ class MultipleEventsForwardTask(object):
                         # Check number of intersections
                         if n_intersections >= self.minimum_number_intersections:
                             # Evaluate relative amplitude ratio pdf
-                            ln_p_amp_rat, scale, scale_uncertainty = relative_amplitude_ratio_ln_pdf(relative_amplitude_i, relative_amplitude_j, np.ascontiguousarray(mt),
+                            ln_p_amp_rat, scale, scale_uncertainty = relative_amplitude_ratio_ln_pdf(relative_amplitude_i, relative_amplitude_j, np.ascontiguousarray(self.mts[i]),
                                                                                                      np.ascontiguousarray(self.mts[j]), a1_relative_amplitude_ratio,
                                                                                                      a2_relative_amplitude_ratio, percentage_error_relative_amplitude_i,
                                                                                                      percentage_error_relative_amplitude_j)
-- 
2.43.0


From 559913bfceffa56ba48f69e77cfccc9049c45f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 66/97] fix: a source impossible at one location sample only is
 not filtered from the joint inversion

---
 src/MTfit/inversion.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index bab7dee..1637ad9 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -638,13 +638,13 @@ class MultipleEventsForwardTask(object):
             # Update mts
             if not self._return_zero:
                 # Update ln_pdfs etc. for non-zeros
-                if sum(non_zeros) != sum(np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()):
-                    non_zeros[non_zeros] = np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()  # update non zeros
+                if sum(non_zeros) != sum(np.array(np.max(ln_p_total, 0) > -np.inf).flatten()):
+                    non_zeros[non_zeros] = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()  # update non zeros
                     for j in range(i+1):
-                        self.mts[j] = np.ascontiguousarray(self.mts[j][:, np.array(np.sum(ln_p_total, 0) > -np.inf). flatten()])
-                    scale_factor = np.ascontiguousarray(scale_factor[:, np.array(np.sum(ln_p_total, 0) > -np.inf).flatten(), :, :])
-                    scale_factor_uncertainty = np.ascontiguousarray(scale_factor_uncertainty[:, np.array(np.sum(ln_p_total, 0) > -np.inf).flatten(), :, :])
-                    ln_p_total = ln_p_total[:, np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()]
+                        self.mts[j] = np.ascontiguousarray(self.mts[j][:, np.array(np.max(ln_p_total, 0) > -np.inf). flatten()])
+                    scale_factor = np.ascontiguousarray(scale_factor[:, np.array(np.max(ln_p_total, 0) > -np.inf).flatten(), :, :])
+                    scale_factor_uncertainty = np.ascontiguousarray(scale_factor_uncertainty[:, np.array(np.max(ln_p_total, 0) > -np.inf).flatten(), :, :])
+                    ln_p_total = ln_p_total[:, np.array(np.max(ln_p_total, 0) > -np.inf).flatten()]
                     mt = self.mts[i]
             #####
             if self._relative and ((isinstance(self.a_relative_amplitude, list) and len(self.a_relative_amplitude)) or not isinstance(self.a_relative_amplitude, (bool, list))) and not self._combine:
@@ -729,7 +729,7 @@ class MultipleEventsForwardTask(object):
                                 return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N}
                             # Update mts for non-zeros
                             if not self._return_zero:
-                                non_zero_indices = np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()
+                                non_zero_indices = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()
                                 if sum(non_zeros) != sum(non_zero_indices):
                                     non_zeros[non_zeros] = non_zero_indices
                                     for j in range(i+1):
@@ -787,7 +787,7 @@ class MultipleEventsForwardTask(object):
                                         return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N}
                                     # Update mts for non-zeros
                                     if not self._return_zero:
-                                        non_zero_indices = np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()
+                                        non_zero_indices = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()
                                         if sum(non_zeros) != sum(non_zero_indices):
                                             non_zeros[non_zeros] = non_zero_indices
                                             for j in range(i+1):
-- 
2.43.0


From daba520fbe7561b92e4856042a7884c6a31badc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 67/97] fix: a reused joint task keeps each event's own data
 after an early return

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 1637ad9..ee520d1 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -601,7 +601,7 @@ class MultipleEventsForwardTask(object):
                 self.mts[i] = np.ascontiguousarray(self.mts[i][:, non_zeros])
                 mt = self.mts[i]
             # If forward tasks are being re-used and one doesn't exist or no tasks are re-used
-            if self._reuse and len(self.forward_tasks) < len(self.mts) or not self._reuse:
+            if self._reuse and len(self.forward_tasks) <= i or not self._reuse:
                 forward_task = ForwardTask(mt, a_polarity, self.error_polarity[i], a1_amplitude_ratio, a2_amplitude_ratio, self.amplitude_ratio[i],
                                            self.percentage_error1_amplitude_ratio[i], self.percentage_error2_amplitude_ratio[i], a_polarity_prob,
                                            self.polarity_prob[i], self.location_sample_multipliers, incorrect_polarity_prob, return_zero=True,
-- 
2.43.0


From a21d5bc19d62b9333430c42a51b11baa445c9df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 68/97] fix: events after the last with extension data have
 none

---
 src/MTfit/inversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index ee520d1..4dc58ed 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -592,7 +592,7 @@ class MultipleEventsForwardTask(object):
                 incorrect_polarity_prob = self.incorrect_polarity_prob[i]
             else:
                 incorrect_polarity_prob = self.incorrect_polarity_prob
-            if len(self.extension_data) and len(self.extension_data) >= i:
+            if len(self.extension_data) > i:
                 extension_data = self.extension_data[i]
             else:
                 extension_data = {}
@@ -978,7 +978,7 @@ class MultipleEventsMcMCForwardTask(McMCForwardTask):
                     incorrect_polarity_prob = self.incorrect_polarity_prob[i]
                 else:
                     incorrect_polarity_prob = self.incorrect_polarity_prob
-                if len(self.extension_data) and len(self.extension_data) >= i:
+                if len(self.extension_data) > i:
                     extension_data = self.extension_data[i]
                 else:
                     extension_data = {}
-- 
2.43.0


From 58b5868de2a060763c134bcf864cd6bb03c5125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 69/97] fix: a joint inversion marginalised event by event has
 one log-probability per sample

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 4dc58ed..42ad8db 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -556,7 +556,7 @@ class MultipleEventsForwardTask(object):
         # If combining outputs make a single ln_pdf else make a list of them
         if self._combine:
             # Assuming that location uncertainty matches for each event (i.e if samples used, event is still co-located...)
-            ln_p_total = np.matrix(np.zeros((self.location_sample_size, self.mts[0].shape[1])))
+            ln_p_total = np.matrix(np.zeros((1 if self._marginalise_relative else self.location_sample_size, self.mts[0].shape[1])))
         else:
             ln_p_total = []
         # Set non-zero array
-- 
2.43.0


From f361d734799034349277525aaddec10d80352eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 70/97] fix: the weights of the shared location samples are
 counted once in a joint inversion

---
 src/MTfit/inversion.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 42ad8db..ea10a70 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -600,11 +600,15 @@ class MultipleEventsForwardTask(object):
             if not self._return_zero and self._combine:
                 self.mts[i] = np.ascontiguousarray(self.mts[i][:, non_zeros])
                 mt = self.mts[i]
+            # A location sample shared by the events has its weight once (with the first event)
+            location_sample_multipliers = self.location_sample_multipliers
+            if i > 0 and not self._marginalise_relative:
+                location_sample_multipliers = False
             # If forward tasks are being re-used and one doesn't exist or no tasks are re-used
             if self._reuse and len(self.forward_tasks) <= i or not self._reuse:
                 forward_task = ForwardTask(mt, a_polarity, self.error_polarity[i], a1_amplitude_ratio, a2_amplitude_ratio, self.amplitude_ratio[i],
                                            self.percentage_error1_amplitude_ratio[i], self.percentage_error2_amplitude_ratio[i], a_polarity_prob,
-                                           self.polarity_prob[i], self.location_sample_multipliers, incorrect_polarity_prob, return_zero=True,
+                                           self.polarity_prob[i], location_sample_multipliers, incorrect_polarity_prob, return_zero=True,
                                            reuse=True, marginalise=self._marginalise_relative, extension_data=extension_data)
                 if self._reuse:
                     self.forward_tasks.append(forward_task)
@@ -706,14 +710,6 @@ class MultipleEventsForwardTask(object):
                             scale_factor[:, :, j, i] = scale
                             scale_factor_uncertainty[:, :, j, i] = scale_uncertainty
                             scale_factor_uncertainty[:, :, i, j] = scale_uncertainty
-                            # Handle location samples PDFs
-                            if self.location_sample_multipliers and sum(self.location_sample_multipliers) != len(self.location_sample_multipliers):
-                                if cprobability:
-                                    location_sample_multipliers = np.array(self.location_sample_multipliers)
-                                    location_sample_multipliers = location_sample_multipliers.astype(np.float64, copy=False)
-                                    ln_p_amp_rat = cprobability.ln_multipliers(ln_p_amp_rat, location_sample_multipliers)
-                                else:
-                                    ln_p_amp_rat += np.log(np.matrix(self.location_sample_multipliers).T)
                             # Marginalise if marginalise_relative flag is True
                             if self.location_sample_size > 1 and self._marginalise_relative:
                                 ln_p_amp_rat = ln_marginalise(ln_p_amp_rat, _cython=cprobability is not False)
-- 
2.43.0


From 4bcfcf8caae2c70e56686bc89bd865d9fec467e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 71/97] fix: the scale factor between two events is finite for
 measurement errors near zero

---
 src/MTfit/probability/cprobability.pyx |  8 +++++---
 src/MTfit/probability/probability.py   | 11 ++++++-----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index e36d553..42dce46 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1646,7 +1646,7 @@ cdef inline DTYPE_t combine_s(DTYPE_t s1, DTYPE_t s2) nogil:
 @cython.cdivision(True)
 cdef void estimate_scale_mu_s(DTYPE_t *mu, DTYPE_t *s, DTYPE_t x,DTYPE_t y,DTYPE_t mux,DTYPE_t muy,DTYPE_t psx,DTYPE_t psy) nogil:
     cdef double sqrtpi=sqrt(pi)
-    cdef DTYPE_t N,sx,sy,z,mu1,mux3,mux2,sy_2,sx_2,s1_2,mu1_2,s1,A,B,C
+    cdef DTYPE_t N,sx,sy,z,mu1,mux3,mux2,sy_2,sx_2,s1_2,mu1_2,s1,A,B,C,d_mu
 
     z=fabs(x/y)
     mux=fabs(mux)
@@ -1667,8 +1667,10 @@ cdef void estimate_scale_mu_s(DTYPE_t *mu, DTYPE_t *s, DTYPE_t x,DTYPE_t y,DTYPE
     B=sx_2*muy/mux3
     C=sqrt2*sx_2*sy*exp_muy/(sqrtpi*mux3*s1_2)
     #CYTHON POINTER ASSIGNMENT
-    mu[0]=(sy_2*mux*z*(s1_2+mu1_2)+sx_2*mu1*muy)/(mux3*N)
-    s[0]=sqrt(((sy_2*(mu1_2*mu1+3*mu1*s1_2)*mux*z+sx_2*(s1_2+mu1_2)*muy)/mux3+sqrt2*sx_2*sx_2*sy*exp_muy/(sqrtpi*mux3*mux2*s1_2))/N-mu[0]*mu[0])
+    # As the difference from mu1, so that the variance does not cancel for small errors
+    d_mu=(sy_2*z*s1_2/mux2-C*mu1)/N
+    mu[0]=mu1+d_mu
+    s[0]=sqrt(((A+B)*s1_2+C*(sx_2/mux2+mu1_2))/N-d_mu*d_mu)
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 8dbb40f..ec53eb8 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -583,11 +583,12 @@ def scale_estimator(observed_ratio, mu_x, mu_y, percentage_error_x, percentage_e
 
     N = np.multiply(A, mu1) + B + C
     # Calculate mean and standard deviations
-    mu = np.divide(np.multiply(A, (s1_2 + mu1_2)) + np.multiply(B, mu1), N)
-    s = np.sqrt(np.divide(np.multiply(A, (3*np.multiply(s1_2, mu1)+np.multiply(mu1_2, mu1))) +
-                          np.multiply(B, (s1_2 + mu1_2)) +
-                          np.multiply(C, np.divide(sx_2, mu_x_2)),
-                          N) - np.multiply(mu, mu))
+    # (as the difference from mu1, so that the variance does not cancel for small errors)
+    d_mu = np.divide(np.multiply(A, s1_2) - np.multiply(C, mu1), N)
+    mu = mu1 + d_mu
+    s = np.sqrt(np.divide(np.multiply(N - C, s1_2) +
+                          np.multiply(C, np.divide(sx_2, mu_x_2) + mu1_2),
+                          N) - np.multiply(d_mu, d_mu))
     # Combine mean over stations
     return combine_mu(mu, s)
 
-- 
2.43.0


From 50ea6cb9bac9a10b4d20f6fd47d4994184f60de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 72/97] fix: a joint inversion without any possible source
 returns its log-probabilities like any other

---
 src/MTfit/inversion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index ea10a70..17a4371 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -638,7 +638,7 @@ class MultipleEventsForwardTask(object):
                 # return zeros
                 if not self._return_zero:
                     return {'moment_tensors': np.matrix([]), 'ln_pdf': LnPDF(np.matrix([])), 'n': N}
-                return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N, 'scale_factor': scale_factor}
+                return {'moment_tensors': self.mts, 'ln_pdf': LnPDF(ln_p_total[:1]), 'n': N, 'scale_factor': scale_factor}
             # Update mts
             if not self._return_zero:
                 # Update ln_pdfs etc. for non-zeros
@@ -722,7 +722,7 @@ class MultipleEventsForwardTask(object):
                             if not (ln_p_total > -np.inf).any():
                                 if not self._return_zero:
                                     return {'moment_tensors': np.matrix([]), 'ln_pdf': LnPDF(np.matrix([])), 'n': N}
-                                return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N}
+                                return {'moment_tensors': self.mts, 'ln_pdf': LnPDF(ln_p_total[:1]), 'n': N}
                             # Update mts for non-zeros
                             if not self._return_zero:
                                 non_zero_indices = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()
@@ -780,7 +780,7 @@ class MultipleEventsForwardTask(object):
                                     if not (ln_p_total > -np.inf).any():
                                         if not self._return_zero:
                                             return {'moment_tensors': np.matrix([]), 'ln_pdf': LnPDF(np.matrix([])), 'n': N}
-                                        return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N}
+                                        return {'moment_tensors': self.mts, 'ln_pdf': LnPDF(ln_p_total[:1]), 'n': N}
                                     # Update mts for non-zeros
                                     if not self._return_zero:
                                         non_zero_indices = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()
-- 
2.43.0


From 6c1e9fd5c9087653c5a008e544fd65d3b4bddfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 73/97] fix: a worker keeps serving after a task which raises,
 so no later task waits for a dead worker

---
 src/MTfit/utilities/multiprocessing_helper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index 8d90d90..86ca19a 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -91,10 +91,12 @@ class Worker(multiprocessing.Process):
                 if self.single_life:
                     break
                 gc.collect()
-            except Exception as e:
+            except (Exception, SystemExit) as e:
+                # The exception is the result of the task, and the worker keeps serving
                 self.result_queue.put(e)
+                if self.single_life:
+                    break
                 gc.collect()
-                break
         return
 
     def start(self):
-- 
2.43.0


From cae21873d94a8fa4df81d8e31aa9f684df0993e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 74/97] fix: all the dead workers are replaced

---
 src/MTfit/utilities/multiprocessing_helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index 86ca19a..d650e29 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -190,11 +190,11 @@ class JobPool(object):
         Removes killed workers and adds new ones until the number of workers is correct.
 
         """
-        for i, worker in enumerate(self.workers):
+        for worker in list(self.workers):
             if not worker.is_alive():
                 if not self.single_life:
                     print(str(worker.name)+' Dead')
-                self.workers.pop(i)
+                self.workers.remove(worker)
                 del worker
         while len(self.workers) < self.number_workers:
             w = Worker(self.tasks, self.results, self.single_life)
-- 
2.43.0


From ef094aa578fe62a5eb5fb191a1c3e9b3c6fa2009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 75/97] fix: collecting results ends when the last outstanding
 tasks return a status code

---
 src/MTfit/utilities/multiprocessing_helper.py | 42 ++++++++++++-------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index d650e29..c98b628 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -221,17 +221,34 @@ class JobPool(object):
         Returns a result object (skipping tasks that return results in the RETURN_CODES)
 
         Returns
-            Task result
+            Task result, or None if there are no more outstanding tasks with a result
         """
-        # clean up dead workers
-        self.clean_workers()
-        # Get result
-        result = self.results.get()
-        self.number_jobs -= 1
-        # Check if result is in return codes (errors or otherwise)
-        if isinstance(result, int) and result in RETURN_CODES:
-            result = self.result()
-        return self.rebuild_ln_pdf(result)
+        results = self._results(1)
+        if results:
+            return results[0]
+
+    def _results(self, number=None):
+        """
+        Collects results of the outstanding tasks, skipping those in the RETURN_CODES
+
+        Args
+            number:[None] number of results to collect, or None for all the outstanding tasks
+
+        Returns
+            List of task results
+        """
+        results = []
+        while self.number_jobs and (number is None or len(results) < number):
+            # clean up dead workers
+            self.clean_workers()
+            # Get result
+            result = self.results.get()
+            self.number_jobs -= 1
+            # Check if result is in return codes (errors or otherwise)
+            if isinstance(result, int) and result in RETURN_CODES:
+                continue
+            results.append(self.rebuild_ln_pdf(result))
+        return results
 
     def rebuild_ln_pdf(self, result):
         if isinstance(result, dict):
@@ -257,11 +274,8 @@ class JobPool(object):
         Returns
             List of task results
         """
-        results = []
         # Loop over all un-returned jobs
-        while self.number_jobs:
-            results.append(self.result())
-        return results
+        return self._results()
 
     def close(self):
         """
-- 
2.43.0


From b9854228ae7d408a89ffe106a31c4004d9332c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 76/97] fix: an exception which cannot be pickled is still the
 result of its task

---
 src/MTfit/utilities/multiprocessing_helper.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index c98b628..aba1fef 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -14,6 +14,7 @@ Handles multiprocessing queue and worker behaviour, including return codes
 import multiprocessing
 import gc
 import os
+import pickle
 
 
 from ..probability import LnPDF
@@ -28,6 +29,20 @@ class PoisonPill(object):
     pass
 
 
+def transferable(exception):
+    """
+    Returns the exception if it can be sent to another process, otherwise a RuntimeError describing it
+
+    Args
+        exception: exception raised by a task
+    """
+    try:
+        pickle.loads(pickle.dumps(exception))
+        return exception
+    except Exception:
+        return RuntimeError('{}: {}'.format(type(exception).__name__, exception))
+
+
 #
 # Worker
 #
@@ -93,7 +108,7 @@ class Worker(multiprocessing.Process):
                 gc.collect()
             except (Exception, SystemExit) as e:
                 # The exception is the result of the task, and the worker keeps serving
-                self.result_queue.put(e)
+                self.result_queue.put(transferable(e))
                 if self.single_life:
                     break
                 gc.collect()
-- 
2.43.0


From c90fb8624ebe8be0fa68ea5592f3a1a33b55e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 77/97] fix: closing the pool ends the workers also with
 uncollected results larger than the pipe

---
 src/MTfit/utilities/multiprocessing_helper.py | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index aba1fef..2e3885b 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -15,6 +15,10 @@ import multiprocessing
 import gc
 import os
 import pickle
+try:
+    import queue
+except ImportError:
+    import Queue as queue
 
 
 from ..probability import LnPDF
@@ -157,6 +161,7 @@ class JobPool(object):
         self.tasks = multiprocessing.Queue()
         self.results = multiprocessing.Queue()
         self.workers = []
+        self.uncollected = []
         # Set default task
         self.task_class = task
         if not number_workers:
@@ -254,10 +259,13 @@ class JobPool(object):
         """
         results = []
         while self.number_jobs and (number is None or len(results) < number):
-            # clean up dead workers
-            self.clean_workers()
-            # Get result
-            result = self.results.get()
+            # Get result (results read when closing the pool come first)
+            if self.uncollected:
+                result = self.uncollected.pop(0)
+            else:
+                # clean up dead workers
+                self.clean_workers()
+                result = self.results.get()
             self.number_jobs -= 1
             # Check if result is in return codes (errors or otherwise)
             if isinstance(result, int) and result in RETURN_CODES:
@@ -302,6 +310,15 @@ class JobPool(object):
         for i in range(self.number_workers):
             # Add poison pill
             self.tasks.put(PoisonPill())
+        # A worker only ends once its results are read, so make space for the uncollected ones
+        alive = True
+        while alive:
+            alive = any(w.is_alive() for w in self.workers)
+            try:
+                while True:
+                    self.uncollected.append(self.results.get(timeout=0.01))
+            except queue.Empty:
+                pass
         # Join workers to main thread
         for w in self.workers:
             w.join()
-- 
2.43.0


From 2da943c49b368ee2188868edc44bc0afa881fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 78/97] fix: a failed event does not lose the results of the
 other events of a pooled Markov chain inversion

---
 src/MTfit/inversion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 17a4371..b134efb 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2244,7 +2244,7 @@ class Inversion(object):
                 self._set_algorithm(**self.kwargs)
                 # Check parallel etc. and run McMCForwardTask
                 if self.pool:
-                    if i > len(self.pool):
+                    if self.pool.number_jobs > len(self.pool):
                         result = self.pool.result()
                         self._print('Inversion completed,  '+str(result['algorithm_output_data']['total_number_samples'])+' samples evaluated: '+str((result['algorithm_output_data']['accepted'])) +
                                     ' accepted samples: '+str((float(result['algorithm_output_data']['accepted'])/float(result['algorithm_output_data']['total_number_samples']))*100)[:4]+'%')
@@ -2283,6 +2283,9 @@ class Inversion(object):
         if self.pool:
             results = self.pool.all_results()
             for result in results:
+                if isinstance(result, (Exception, SystemExit)):
+                    self._print('Inversion failed: {!r}'.format(result))
+                    continue
                 try:
                     accepted = (float(result['algorithm_output_data']['accepted'])/float(result['algorithm_output_data']['total_number_samples']))*100
                 except ZeroDivisionError:
-- 
2.43.0


From fa2d9832009b87d662d353f7ccdb1c385fb49c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 79/97] fix: empty lines of a CSV file split events, whatever
 the columns of its data rows

---
 src/MTfit/utilities/file_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 41e7014..9f4f5b3 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -347,7 +347,7 @@ def parse_csv(filename):
     event = []
     # Loop over lines
     for l in lines:
-        if not len(l.split(',')[0]) and not len(l.split(',')[1]):
+        if not l.replace(',', '').strip():
             # End OF event
             if len(event):
                 events_list.append(event)
-- 
2.43.0


From 61056f9f067a10f19037d55900189fd42acb260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 80/97] fix: an event of a CSV file without a UID is given its
 own number, also when another event has the same data

---
 src/MTfit/utilities/file_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 9f4f5b3..4f47d6a 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -398,8 +398,8 @@ def _parse_csv_events(events_list):
     take_off_angle_index = 2
     error_index = 4
     # Loop over events
-    for event in events_list:
-        event_dict = {'UID': str(events_list.index(event)+1)}
+    for event_number, event in enumerate(events_list, 1):
+        event_dict = {'UID': str(event_number)}
         # Set up generic dictionary
         key_dict = {'Stations': {
             'Name': [], 'TakeOffAngle': [], 'Azimuth': []}, 'Measured': [], 'Error': []}
-- 
2.43.0


From 6eeace2b882dee3f57bee6c0a986ee14f93fd31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 81/97] fix: phase lines without a take-off angle are skipped

---
 src/MTfit/utilities/file_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 4f47d6a..0213aaf 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -269,7 +269,7 @@ def _parse_hyp_events(events_list, polarity_error_multiplier=3.):
             if line[0] == 'END_PHASE':
                 phase = False
             # If in phase section, read data
-            if phase and len(line) >= 24:
+            if phase and len(line) > 24:
                 # Get station
                 station = line[0]
                 # Get phase
-- 
2.43.0


From d52b68370dfe93dcf75dfd46eba2632ee6a34953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 82/97] fix: joint results with scale factors can be written in
 the binary format

---
 src/MTfit/utilities/file_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 0213aaf..192b5f6 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -601,10 +601,10 @@ def _convert_mt_space_to_struct(output_data, i=False):
     else:
         sf_output = ''
     if 'scale_factors' in output_data:
-        n_events = output_data['scale_factors']['mu'].shape[1]
+        n_events = output_data['scale_factors'][0]['mu'].shape[-1] if len(output_data['scale_factors']) else 0
         sf_output = struct.pack('QQQ', output_data['total_number_samples'], len(output_data['scale_factors']), n_events)
         for i, sf in enumerate(output_data['scale_factors']):
-            sf_output += struct.pack('dd', output_data['probability'][0, i], output_data['ln_pdf'][0, i])
+            sf_output += struct.pack('dd', np.ravel(output_data['probability'])[i], np.ravel(output_data['ln_pdf'])[i])
             # Add data for each event - Loops over off diagonal elements
             k = 0
             _l = 1
-- 
2.43.0


From 0c75bf2c46b385d4a680608a51b2bec2d7455078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 83/97] fix: the evidence of results without converted
 parameters is read back

---
 src/MTfit/utilities/file_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 192b5f6..1955f3b 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -1228,7 +1228,9 @@ def read_binary_output(filename, version=2):
                    Probability, 'ln_pdf': Ln_P, 'total_number_samples': total_number_samples}
             if converted:
                 out.update({'g': g, 'd': d, 'k': k, 'h': h, 's': s, 'u': u, 'v': v, 'S1': s1, 'D1': d1,
-                            'R1': r1, 'S2': s2, 'D2': d2, 'R2': r2, 'ln_bayesian_evidence': ln_bayesian_evidence})
+                            'R1': r1, 'S2': s2, 'D2': d2, 'R2': r2})
+            if converted or not np.isnan(ln_bayesian_evidence):
+                out['ln_bayesian_evidence'] = ln_bayesian_evidence
             # Append to output data list
             output_data.append(out)
     return output_data
-- 
2.43.0


From 1d28d743cee0616578c8870a9613c8f85e96a765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 84/97] fix: lines of blanks end a scatter sample

---
 src/MTfit/extensions/scatangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/extensions/scatangle.py b/src/MTfit/extensions/scatangle.py
index 3511d48..97c82b7 100644
--- a/src/MTfit/extensions/scatangle.py
+++ b/src/MTfit/extensions/scatangle.py
@@ -109,7 +109,7 @@ def parse_scatangle(filename, number_location_samples=0, bin_size=0, _use_c=True
     multiplier = 1.0
     # Loop over lines
     for line in station_file:
-        if line.lstrip('\r') == '\n':
+        if not line.strip():
             if len(record['Name']) and multiplier:
                 record['Azimuth'] = np.matrix(record['Azimuth']).T
                 record['TakeOffAngle'] = np.matrix(record['TakeOffAngle']).T
-- 
2.43.0


From fca38f1a6b6129da0e295f66ac98598ca0dbfb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 85/97] fix: scatter samples are compared station by station
 when they list the stations differently

---
 src/MTfit/extensions/scatangle.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/extensions/scatangle.py b/src/MTfit/extensions/scatangle.py
index 97c82b7..a0b4ffd 100644
--- a/src/MTfit/extensions/scatangle.py
+++ b/src/MTfit/extensions/scatangle.py
@@ -150,7 +150,9 @@ def parse_scatangle(filename, number_location_samples=0, bin_size=0, _use_c=True
     new_multipliers = []
     if bin_size:
         old_size = len(sample_records)
-        if cscatangle and _use_c:
+        # The compiled code compares the angles by position
+        same_stations = all([record['Name'] == sample_records[0]['Name'] for record in sample_records])
+        if cscatangle and _use_c and same_stations:
             logger.info('C code used')
             t0 = time.time()
             sample_records, multipliers = cscatangle.bin_scatangle(sample_records, np.array(multipliers), bin_size)
@@ -164,8 +166,12 @@ def parse_scatangle(filename, number_location_samples=0, bin_size=0, _use_c=True
                 j = i+1
                 multiplier = multipliers[i]
                 while j < len(sample_records):
-                    toa_diff = sample_records[j]['TakeOffAngle']-record['TakeOffAngle']
-                    az_diff = sample_records[j]['Azimuth']-record['Azimuth']
+                    if sorted(sample_records[j]['Name']) != sorted(record['Name']):
+                        j += 1
+                        continue
+                    order = [sample_records[j]['Name'].index(name) for name in record['Name']]
+                    toa_diff = sample_records[j]['TakeOffAngle'][order]-record['TakeOffAngle']
+                    az_diff = sample_records[j]['Azimuth'][order]-record['Azimuth']
                     if np.max(np.abs(toa_diff)) < bin_size/2.0 and np.max(np.abs(az_diff)) < bin_size/2.0:
                         multiplier += multipliers.pop(j)
                         sample_records.pop(j)
-- 
2.43.0


From 46572882e4a24d43367e23dd2496b50d03c5e953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:08 +0000
Subject: [PATCH 86/97] fix: joint probabilities far below the best tuple of a
 batch survive the location marginalisation

---
 src/MTfit/inversion.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index b134efb..887a598 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -817,19 +817,14 @@ class MultipleEventsForwardTask(object):
         # Set up results dict
         if self.location_sample_size > 1 and not self._marginalise_relative:
             # Relative not marginalised already
-            ln_scale = 0
-            if -ln_p_total.max() > 0 and ln_p_total.max() > -np.inf:
-                ln_scale = -ln_p_total.max()
             scale_factor = np.array([{'mu': scale_factor[:, i], 'ln_p': ln_p_total[:, i], 'sigma': scale_factor_uncertainty[:, i]} for i in range(scale_factor.shape[1])])
             try:
                 for key in extension_scale.keys():
                     extension_scale[key] = np.array([{'mu': extension_scale[key][:, i], 'ln_p': ln_p_total[:, i], 'sigma': extension_scale_uncertainty[key][:, i]} for i in range(extension_scale[key].shape[1])])
             except Exception:
                 extension_scale = {}
-            p_total = np.exp(ln_p_total+ln_scale)
-            # Marginalise
-            p_total = np.matrix(np.sum(p_total, 0))
-            ln_p_total = np.log(p_total)-ln_scale
+            # Marginalise, every tuple with its own scaling
+            ln_p_total = np.matrix(ln_marginalise(np.array(ln_p_total)))
         elif self._relative:  # marginalise_relative is true
             if scale_factor.shape[0] == 1:
                 scale_factor = scale_factor.squeeze(0)
-- 
2.43.0


From 9e604020f6c5f24884ab85f1022c792d7d069383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 87/97] fix: MTData with one sample can be indexed after
 converting to tau, k, u and v

---
 src/MTfit/plot/plot_classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index 39f4091..3f1f4fb 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -593,8 +593,8 @@ class MTData(object):
             self.get_max_probability()
         if attr in ['u', 'v']:
             u, v = tk_uv(self.tau, self.k)
-            self.u = u
-            self.v = v
+            self.u = np.atleast_1d(u)
+            self.v = np.atleast_1d(v)
         if attr in ['phi1', 'phi2', 'area_displacement', 'explosion']:
             phi, explosion, area_displacement = MT6_biaxes(self.MTs, self.c)
             try:
@@ -607,8 +607,8 @@ class MTData(object):
             self.explosion = explosion
         if attr in ['tau', 'k']:
             tau, k = E_tk(self.E)
-            self.tau = tau
-            self.k = k
+            self.tau = np.atleast_1d(tau)
+            self.k = np.atleast_1d(k)
         if attr in ['ln_bayesian_evidence']:
             try:
                 self.ln_bayesian_evidence = ln_bayesian_evidence({'g': self.gamma, 'd': self.delta, 'ln_pdf': self.ln_pdf},
-- 
2.43.0


From 4ce95508a57b6f1c65e6a0cd440bfdf94398b7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 88/97] fix: MTData reads a stack of exactly six 3x3 moment
 tensors

---
 src/MTfit/plot/plot_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index 3f1f4fb..e966230 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -207,7 +207,7 @@ class MTData(object):
         # convert MTs to MT6
         if not isinstance(MTs, np.ndarray):
             MTs = np.array(MTs)
-        if 6 not in MTs.shape:
+        if 6 not in MTs.shape or (len(MTs.shape) == 3 and MTs.shape[-2:] == (3, 3)):
             # MT 33 as (:,3,3) 3 dimensional array
             if MTs.shape[-2:] == (3, 3):
                 # 3x3 matrix
-- 
2.43.0


From d0ee4e4e09514f2950973aa2d34e41f76ee2f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 89/97] fix: MTData keeps the probability of a single sample

---
 src/MTfit/plot/plot_classes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index e966230..340a906 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -171,6 +171,10 @@ class MTData(object):
             self._clear_dependent_parameters()
         self.probability = np.array(probability).flatten()
 
+    def _has_probability(self):
+        """Returns True if there is a probability for each moment tensor"""
+        return len(self.probability) > 0 and len(self.probability) == len(self)
+
     def _set_ln_pdf(self, ln_pdf):
         """Set ln_pdf samples, if the ln_pdf is the same size as the moment tensor."""
         if not isinstance(ln_pdf, (list, np.ndarray)):
@@ -242,7 +246,7 @@ class MTData(object):
         """
         converted = self._get_converted(arg)
         probability = []
-        if len(self.probability) > 1:
+        if self._has_probability():
             try:
                 probability = self.probability.__getitem__(arg)
             except Exception:
@@ -756,7 +760,7 @@ class MTData(object):
         Returns:
             MTData:  New MTData object with max probability MT samples.
         """
-        if not len(self.probability) > 1:
+        if not self._has_probability():
             raise ValueError('maximum probability requires probability to be set.')
         idx = self.probability == self.probability.max()
         new = self[:, idx]
-- 
2.43.0


From da39a9bc177de4a96abdb7b944608cc7af5bfde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 90/97] fix: converted parameters of a single sample selected
 from MTData keep their sample dimension

---
 src/MTfit/plot/plot_classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index 340a906..c241122 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -244,6 +244,9 @@ class MTData(object):
         Returns
              MTData: new object with the corresponding moment tensors and any converted parameters.
         """
+        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (int, np.integer)):
+            # Selecting a single sample, so keep the sample dimension in the converted parameters
+            arg = (arg[0], [arg[1]])
         converted = self._get_converted(arg)
         probability = []
         if self._has_probability():
-- 
2.43.0


From 6c208b3a3d604bbdf20bf0dabb40acd455265b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 91/97] fix: converted parameters follow the moment tensors set
 using MTData.__setitem__

---
 src/MTfit/plot/plot_classes.py | 152 +--------------------------------
 1 file changed, 4 insertions(+), 148 deletions(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index c241122..a7c43ca 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -383,160 +383,16 @@ class MTData(object):
 
     def _set_converted(self, arg):
         """
-        Sets the converted parameters for a new MTs set using __setitem__
+        Resets the converted parameters for a new MTs set using __setitem__
 
-        If a parameter has been set, the new moment tensors are converted to that parameter and set
-
-        (Includes parent parameters, i.e. those required to calculate the other parameters)
+        The converted parameters are cleared, so that they are recalculated from the new moment tensors when required.
 
         Args
             arg: index or slice of parameters to set.
         """
         self._clear_dependent_parameters()
-        T, N, P, E = MT6_TNPE(self.MTs[arg])
-        if 'phi1' in self.__dict__.keys():
-            phi, explosion, area_displacement = MT6_biaxes(
-                self.MTs[arg], self.c)
-            try:
-                self.phi1[arg] = (phi[:, :, 0]).T
-            except Exception:
-                self.phi1[arg[1]] = (phi[:, :, 0]).T
-            try:
-                self.phi2[arg] = (phi[:, :, 1]).T
-            except Exception:
-                self.phi2[arg[1]] = (phi[:, :, 1]).T
-            try:
-                self.area_displacement[arg] = area_displacement
-            except Exception:
-                self.area_displacement[arg[1]] = area_displacement
-            try:
-                self.explosion[arg] = explosion
-            except Exception:
-                self.explosion[arg[1]] = explosion
-        if 'T' in self.__dict__.keys():
-            try:
-                self.T[arg] = np.array(np.matrix(T))
-                self.N[arg] = np.array(np.matrix(N))
-                self.P[arg] = np.array(np.matrix(P))
-            except ValueError:
-                self.T[arg] = T.flatten()
-                self.N[arg] = N.flatten()
-                self.P[arg] = P.flatten()
-        if 'N1' in self.__dict__.keys():
-            N1, N2 = TP_FP(self.T, self.P)
-            try:
-                self.N1[arg] = np.matrix(N1)
-                self.N2[arg] = np.matrix(N2)
-            except ValueError:
-                self.N1[arg] = N1.flatten()
-                self.N2[arg] = N2.flatten()
-
-        if 'strike' in self.__dict__.keys():
-            strike, dip, rake = TNP_SDR(T, N, P)
-            try:
-                self.strike[arg] = strike*rad_deg
-            except Exception:
-                self.strike[arg[1]] = strike*rad_deg
-            try:
-                self.dip[arg] = dip*rad_deg
-            except Exception:
-                self.dip[arg[1]] = dip*rad_deg
-            try:
-                self.rake[arg] = rake*rad_deg
-            except Exception:
-                self.rake[arg[1]] = rake*rad_deg
-
-        if 'strike2' in self.__dict__.keys():
-            try:
-                strike2, dip2, rake2 = SDR_SDR(strike, dip, rake)
-            except Exception:
-                strike, dip, rake = TNP_SDR(T, N, P)
-                strike2, dip2, rake2 = SDR_SDR(strike, dip, rake)
-
-            try:
-                self.strike2[arg] = strike2*rad_deg
-            except Exception:
-                self.strike2[arg[1]] = strike2*rad_deg
-            try:
-                self.dip2[arg] = dip2*rad_deg
-            except Exception:
-                self.dip2[arg[1]] = dip2*rad_deg
-            try:
-                self.rake2[arg] = rake2*rad_deg
-            except Exception:
-                self.rake2[arg[1]] = rake2*rad_deg
-        if 'gamma' in self.__dict__.keys():
-            gamma, delta = E_GD(E)
-            try:
-                self.gamma[arg] = gamma
-            except Exception:
-                self.gamma[arg[1]] = gamma
-            try:
-                self.delta[arg] = delta
-            except Exception:
-                self.delta[arg[1]] = delta
-
-        if 'tau' in self.__dict__.keys():
-            tau, k = E_tk(E)
-            try:
-                self.tau[arg] = tau
-            except Exception:
-                self.tau[arg[1]] = tau
-            try:
-                self.k[arg] = k
-            except Exception:
-                self.k[arg[1]] = k
-
-        if 'u' in self.__dict__.keys():
-            try:
-                u, v = E_uv(tau, k)
-            except Exception:
-                tau, k = E_tk(E)
-                u, v = E_uv(tau, k)
-            try:
-                self.u[arg] = u
-            except Exception:
-                self.u[arg[1]] = u
-            try:
-                self.v[arg] = v
-            except Exception:
-                self.v[arg[1]] = v
-
-        if 'kappa' in self.__dict__.keys():
-            try:
-                kappa = strike
-                kappa[np.abs(rake) > 90] = strike2[np.abs(rake) > 90]
-                h = dip
-                h[np.abs(rake) > 90] = dip2[np.abs(rake) > 90]
-                h = np.cos(h/rad_deg)
-                sigma = rake
-                sigma[np.abs(rake) > 90] = rake2[np.abs(rake) > 90]
-                kappa = kappa/rad_deg
-                sigma = sigma/rad_deg
-            except Exception:
-                strike, dip, rake = TNP_SDR(T, N, P)
-                strike2, dip2, rake2 = SDR_SDR(strike, dip, rake)
-                kappa = strike
-                kappa[np.abs(rake) > 90] = strike2[np.abs(rake) > 90]
-                h = dip
-                h[np.abs(rake) > 90] = dip2[np.abs(rake) > 90]
-                h = np.cos(h/rad_deg)
-                sigma = rake
-                sigma[np.abs(rake) > 90] = rake2[np.abs(rake) > 90]
-                kappa = kappa/rad_deg
-                sigma = sigma/rad_deg
-            try:
-                self.kappa[arg] = kappa
-            except Exception:
-                self.kappa[arg[1]] = kappa
-            try:
-                self.h[arg] = h
-            except Exception:
-                self.h[arg[1]] = h
-            try:
-                self.sigma[arg] = sigma
-            except Exception:
-                self.sigma[arg[1]] = sigma
+        for attr in self._calculable + ['phi1', 'phi2']:
+            self.__dict__.pop(attr, None)
 
     def _convert(self, attr, *args, **kwargs):
         """
-- 
2.43.0


From 5f0acc2f83d9934e7b5e1e93a5a3a9d578d17801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 92/97] fix: MTData has the same statistics for moment tensors
 given as a matrix, and does not share them with the samples it was selected
 from

---
 src/MTfit/plot/plot_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index a7c43ca..8387af3 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -233,7 +233,7 @@ class MTData(object):
         # Get 6,n format
         if new_mts.shape[0] != 6:
             new_mts = new_mts.T
-        return new_mts
+        return np.array(new_mts)
 
     def __getitem__(self, arg):
         """
-- 
2.43.0


From 261d77e3a50b16873da739a5788bcf521d818e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 93/97] fix: back projection of points next to the pole of a
 full sphere projection

---
 src/MTfit/plot/spherical_projection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/plot/spherical_projection.py b/src/MTfit/plot/spherical_projection.py
index d49b849..8d47d2f 100644
--- a/src/MTfit/plot/spherical_projection.py
+++ b/src/MTfit/plot/spherical_projection.py
@@ -134,8 +134,9 @@ def __project(x, y, z, correction_function, projection_axis=False, lower=True, f
     if back_project:
         X_b = -x*correction_function(-x, -y, -z, lower)
         Y_b = -y*correction_function(-x, -y, -z, lower)
-        X[np.isnan(X)] = X_b[np.isnan(Y)]
-        Y[np.isnan(Y)] = Y_b[np.isnan(Y)]
+        hidden = np.isnan(X) | np.isnan(Y)
+        X[hidden] = X_b[hidden]
+        Y[hidden] = Y_b[hidden]
     X[np.isinf(X)] = np.nan
     Y[np.isinf(Y)] = np.nan
     return X, Y
-- 
2.43.0


From fc4e98fb53c29ed9f7b14270a6610216701b58cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 94/97] fix: the projection axis of the focal sphere
 projections is used

---
 src/MTfit/plot/spherical_projection.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/MTfit/plot/spherical_projection.py b/src/MTfit/plot/spherical_projection.py
index 8d47d2f..486243c 100644
--- a/src/MTfit/plot/spherical_projection.py
+++ b/src/MTfit/plot/spherical_projection.py
@@ -108,20 +108,20 @@ def __project(x, y, z, correction_function, projection_axis=False, lower=True, f
     y = np.array(y)
     z = np.array(z)
     if isinstance(projection_axis, (list, np.ndarray)):
-        projection_axis = np.array(projection_axis).flatten()
+        # Rotate the projection axis onto the z axis
+        projection_axis = np.array(projection_axis, dtype=float).flatten()
         rAxis = np.cross(projection_axis, np.array([0, 0, 1]))
-        theta = - np.arcsin(np.sqrt(np.sum(rAxis ^ 2)) /
-                            (np.sqrt(np.sum(projection_axis ^ 2))))
-        rAxis = rAxis/np.sqrt(np.sum(rAxis ^ 2))
+        theta = np.arctan2(np.sqrt(np.sum(rAxis**2)), projection_axis[2])
+        if np.sum(rAxis**2) > 0:
+            rAxis = rAxis/np.sqrt(np.sum(rAxis**2))
+        else:
+            rAxis = np.array([1., 0., 0.])
         R = np.matrix([[1, 0, 0], [0, 1, 0], [0, 0, 1]])*np.cos(theta) + \
             np.sin(theta)*np.matrix([[0, -rAxis[2], rAxis[1]],
                                      [rAxis[2], 0, -rAxis[0]],
                                      [-rAxis[1], rAxis[0], 0]]) + \
             (1-np.cos(theta))*(np.matrix(rAxis).T*np.matrix(rAxis))
-        V = R*np.matrix([[x], [y], [z]])
-        x = V[1, :]
-        y = V[2, :]
-        z = V[3, :]
+        x, y, z = np.tensordot(np.array(R), np.array([x, y, z]), 1)
     X = x*correction_function(x, y, z, lower)
     Y = y*correction_function(x, y, z, lower)
     if not full_sphere:
-- 
2.43.0


From 983f83305fa1818f432072ecfcbb496ca7883874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 95/97] fix: clustering the fault plane normals of samples with
 several equally close normals

---
 src/MTfit/plot/plot_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index 8387af3..b97c238 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -517,7 +517,7 @@ class MTData(object):
             n2_2cos_theta = np.abs(self.N2[:, i].T*n2).max()
             dist = np.array([n1_1cos_theta, n1_2cos_theta, n2_1cos_theta, n2_2cos_theta])
             ind = np.nonzero(dist == max(dist))[0]
-            if (len(ind == 1) and (ind[0] == 0 or ind[0] == 3)) or (ind == [0, 3]).all():
+            if ind[0] == 0 or ind[0] == 3:
                 if (self.N1[:, i].T*n1).max() < 0:
                     N1 = -self.N1[:, i]
                 else:
-- 
2.43.0


From b1302d54005cedb7808933d2c235dcf9850f0159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 96/97] fix: MTData with one sample can be indexed after
 converting to fault plane angles or lune coordinates

---
 src/MTfit/plot/plot_classes.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index b97c238..398df00 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -422,18 +422,18 @@ class MTData(object):
         if attr in ['strike2', 'dip2', 'rake2']:
             strike2, dip2, rake2 = SDR_SDR(
                 self.strike1/rad_deg, self.dip1/rad_deg, self.rake1/rad_deg)
-            self.strike2 = strike2*rad_deg
-            self.dip2 = dip2*rad_deg
-            self.rake2 = rake2*rad_deg
+            self.strike2 = np.atleast_1d(strike2*rad_deg)
+            self.dip2 = np.atleast_1d(dip2*rad_deg)
+            self.rake2 = np.atleast_1d(rake2*rad_deg)
         if attr in ['gamma', 'delta']:
             gamma, delta = E_GD(self.E)
-            self.gamma = gamma
-            self.delta = delta
+            self.gamma = np.atleast_1d(gamma)
+            self.delta = np.atleast_1d(delta)
         if attr in ['strike', 'dip', 'rake']:
             strike, dip, rake = TNP_SDR(self.T, self.N, self.P)
-            self.strike = strike*rad_deg
-            self.dip = dip*rad_deg
-            self.rake = rake*rad_deg
+            self.strike = np.atleast_1d(strike*rad_deg)
+            self.dip = np.atleast_1d(dip*rad_deg)
+            self.rake = np.atleast_1d(rake*rad_deg)
         if attr in ['T', 'N', 'P', 'E']:
             T, N, P, E = MT6_TNPE(self.MTs)
             self.T = np.array(T)
-- 
2.43.0


From 79440b407a51e01d6ef2150d338d5382dbd75fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:43 +0000
Subject: [PATCH 97/97] fix: a UID containing UID is read completely from a CSV
 file

---
 src/MTfit/utilities/file_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 1955f3b..da9e7b6 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -410,7 +410,7 @@ def _parse_csv_events(events_list):
                 # Try tp get UID
                 if 'UID' in split_line[0]:
                     event_dict['UID'] = split_line[0].split(
-                        'UID')[1].lstrip(':').lstrip('=').strip()
+                        'UID', 1)[1].lstrip(':').lstrip('=').strip()
                 else:
                     # End of event
                     if len(key_dict['Stations']['Name']):
-- 
2.43.0

