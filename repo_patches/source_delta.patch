From 7103754d51e5a7a3c8a336a4467f0b0df76e49a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:49 +0000
Subject: [PATCH 01/75] fix: prox_l1 of a complex array returns zero rather
 than NaN at zero entries

---
 sporco/prox/_lp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/prox/_lp.py b/sporco/prox/_lp.py
index 1df8802..358aad4 100644
--- a/sporco/prox/_lp.py
+++ b/sporco/prox/_lp.py
@@ -180,7 +180,8 @@ def prox_l1(v, alpha):
         else:
             return np.sign(v) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
     else:
-        return (v / np.abs(v)) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
+        return zdivide(v, np.abs(v)) * (np.clip(np.abs(v) - alpha, 0,
+                                                float('Inf')))
 
 
 
-- 
2.43.0


From 40356b34364471178f16f73a169e19251f30bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:49 +0000
Subject: [PATCH 02/75] fix: ndto2d accepts an axis tuple including all axes of
 the array

---
 sporco/prox/_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/prox/_util.py b/sporco/prox/_util.py
index 16cacf4..5bade11 100644
--- a/sporco/prox/_util.py
+++ b/sporco/prox/_util.py
@@ -60,7 +60,7 @@ def ndto2d(x, axis=-1):
     # Reshape into a 2D array with the axes specified by the axis
     # parameter flattened into an index along rows, and the remaining
     # axes flattened into an index along the columns
-    xtr = xt.reshape((np.prod(xts[0:len(caxis)]), -1))
+    xtr = xt.reshape((int(np.prod(xts[0:len(caxis)])), -1))
     # Return reshaped array and a tuple containing the information
     # necessary to undo the entire operation
     return xtr, (xts, prm)
-- 
2.43.0


From aa6ecea1de580c3e5f37718db55abd625b727cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:38 +0000
Subject: [PATCH 03/75] fix: l1 weight array with a signal axis is not assigned
 to the channel axis

---
 sporco/cnvrep.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sporco/cnvrep.py b/sporco/cnvrep.py
index f0ec3f3..9a83c92 100644
--- a/sporco/cnvrep.py
+++ b/sporco/cnvrep.py
@@ -535,7 +535,8 @@ def l1Wshape(W, cri):
                              'the same number of dimensions as input array')
     elif W.ndim == sdim:
         # Weight array has the same number of dimensions as the input array
-        shpW = W.shape + (1,) * (3 - cri.dimC - cri.dimK)
+        shpW = W.shape[0:cri.dimN] + (1,) * (1 - cri.dimC) + \
+            W.shape[cri.dimN:] + (1,) * (1 - cri.dimK) + (1,)
     else:
         # Weight array has more dimensions than the input array
         if W.ndim == cri.dimN + 3:
@@ -544,8 +545,8 @@ def l1Wshape(W, cri):
         else:
             # Assume that the final axis in the input array is the filter
             # index
-            shpW = W.shape[0:-1] + (1,) * (2 - cri.dimC - cri.dimK) + \
-                W.shape[-1:]
+            shpW = W.shape[0:cri.dimN] + (1,) * (1 - cri.dimC) + \
+                W.shape[cri.dimN:-1] + (1,) * (1 - cri.dimK) + W.shape[-1:]
 
     return shpW
 
-- 
2.43.0


From 0b5cdba278cdececc5521eca474d6d5886a2ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 04/75] fix: zero-mean dictionary projection without cropping
 respects dimN

---
 sporco/cnvrep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/cnvrep.py b/sporco/cnvrep.py
index 9a83c92..dd797a9 100644
--- a/sporco/cnvrep.py
+++ b/sporco/cnvrep.py
@@ -1009,7 +1009,8 @@ def _Pcn_zm(x, dsz, Nv, dimN=2, dimC=1):
       Projection of input onto constraint set
     """
 
-    return normalise(zeromean(zpad(bcrop(x, dsz, dimN), Nv), dsz), dimN + dimC)
+    return normalise(zeromean(zpad(bcrop(x, dsz, dimN), Nv), dsz, dimN),
+                     dimN + dimC)
 
 
 
-- 
2.43.0


From 2a1770de07971d343816610e121eae0987f6d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:08 +0000
Subject: [PATCH 05/75] fix: ConvBPDN sets the penalty parameter before the
 state that depends on it

---
 sporco/admm/cbpdn.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 7b08026..5a606cd 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -566,14 +566,12 @@ class ConvBPDN(GenericConvBPDN):
         # Set dtype attribute based on S.dtype and opt['DataType']
         self.set_dtype(opt, S.dtype)
 
-        # Call parent class __init__
-        super(ConvBPDN, self).__init__(D, S, opt, dimK, dimN)
-
         # Set default lambda value if not specified
         if lmbda is None:
             cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
-            Df = self.fftn(D.reshape(cri.shpD), cri.Nv, axes=cri.axisN)
-            Sf = self.fftn(S.reshape(cri.shpS), axes=cri.axisN)
+            fftn = fftn_func(np.isrealobj(D) and np.isrealobj(S))
+            Df = fftn(D.reshape(cri.shpD), cri.Nv, axes=cri.axisN)
+            Sf = fftn(S.reshape(cri.shpS), axes=cri.axisN)
             b = np.conj(Df) * Sf
             lmbda = 0.1 * abs(b).max()
 
@@ -592,6 +590,11 @@ class ConvBPDN(GenericConvBPDN):
         self.set_attr('rho_xi', opt['AutoRho', 'RsdlTarget'], dval=rho_xi,
                       dtype=real_dtype(self.dtype), reset=True)
 
+        # Call parent class __init__. This is done after setting the
+        # penalty parameter since both the dual variable initialiser and
+        # the solver cache computed by the parent class depend on it.
+        super(ConvBPDN, self).__init__(D, S, opt, dimK, dimN)
+
         # Set l1 term weight array
         self.wl1 = np.asarray(opt['L1Weight'], dtype=real_dtype(self.dtype))
         self.wl1 = self.wl1.reshape(cr.l1Wshape(self.wl1, self.cri))
-- 
2.43.0


From 60502d59f5859d380c06ace4b52bffde69010712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:17 +0000
Subject: [PATCH 06/75] fix: NoBndryCross option with a filter of unit length
 on some axis does not zero all coefficients

---
 sporco/admm/cbpdn.py    | 6 ++++--
 sporco/admm/parcbpdn.py | 2 +-
 sporco/pgm/cbpdn.py     | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 5a606cd..b27407c 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -308,7 +308,8 @@ class GenericConvBPDN(admm.ADMMEqual):
         if self.opt['NoBndryCross']:
             for n in range(0, self.cri.dimN):
                 self.Y[(slice(None),) * n +
-                       (slice(1 - self.D.shape[n], None),)] = 0.0
+                       (slice(self.Y.shape[n] - self.D.shape[n] + 1,
+                              None),)] = 0.0
 
 
 
@@ -1659,7 +1660,8 @@ class ConvTwoBlockCnstrnt(admm.ADMMTwoBlockCnstrnt):
             if self.opt['NoBndryCross']:
                 for n in range(0, self.cri.dimN):
                     Y1[(slice(None),)*n +
-                       (slice(1-self.D.shape[n], None),)] = 0.0
+                       (slice(Y1.shape[n] - self.D.shape[n] + 1,
+                              None),)] = 0.0
             self.block_sep1(self.Y)[:] = Y1
 
 
diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index f8ff768..79dbb4a 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -229,7 +229,7 @@ def par_y1step(i):
     if mp_NoBndryCross:
         for n in range(len(mp_Nv)):
             Y1[(slice(None),) + (slice(None),)*n +
-               (slice(1-mp_Dshp[n], None),)] = 0.0
+               (slice(mp_Nv[n] - mp_Dshp[n] + 1, None),)] = 0.0
     mp_Y1[mp_grp[i]:mp_grp[i+1]] = Y1
 
 
diff --git a/sporco/pgm/cbpdn.py b/sporco/pgm/cbpdn.py
index 95a9d73..6859a2b 100644
--- a/sporco/pgm/cbpdn.py
+++ b/sporco/pgm/cbpdn.py
@@ -294,7 +294,8 @@ class ConvBPDN(pgm.PGMDFT):
         if self.opt['NoBndryCross']:
             for n in range(0, self.cri.dimN):
                 U[(slice(None),) * n +
-                  (slice(1 - self.D.shape[n], None),)] = 0.0
+                  (slice(U.shape[n] - self.D.shape[n] + 1,
+                         None),)] = 0.0
         return U
 
 
-- 
2.43.0


From c234998db86523bbf0d1597bf9a44593dbd9b083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:35 +0000
Subject: [PATCH 07/75] fix: ConvElasticNet and ConvBPDNGradReg update the
 solver cache when rho changes

---
 sporco/admm/cbpdn.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index b27407c..2295da2 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -991,6 +991,16 @@ class ConvElasticNet(ConvBPDN):
 
 
 
+    def rhochange(self):
+        """Updated cached c array when rho changes."""
+
+        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+            self.c = sl.solvedbi_sm_c(
+                self.Df, np.conj(self.Df), self.mu + self.rho,
+                self.cri.axisM)
+
+
+
 
 
 class ConvBPDNGradReg(ConvBPDN):
@@ -1219,6 +1229,16 @@ class ConvBPDNGradReg(ConvBPDN):
 
 
 
+    def rhochange(self):
+        """Updated cached c array when rho changes."""
+
+        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+            self.c = sl.solvedbd_sm_c(
+                self.Df, np.conj(self.Df), self.mu*self.GHGf + self.rho,
+                self.cri.axisM)
+
+
+
 
 
 class ConvBPDNProjL1(GenericConvBPDN):
-- 
2.43.0


From eca2605b2380a6cfb0df1ec0b83b1538f9a153ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:28 +0000
Subject: [PATCH 08/75] fix: two-block sparse coding classes can be initialised
 from a primal variable only

---
 sporco/admm/bpdn.py  |  6 +++++-
 sporco/admm/cbpdn.py | 16 +++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/sporco/admm/bpdn.py b/sporco/admm/bpdn.py
index 459ee9d..04044b2 100644
--- a/sporco/admm/bpdn.py
+++ b/sporco/admm/bpdn.py
@@ -1061,6 +1061,11 @@ class MinL1InL2Ball(admm.ADMMTwoBlockCnstrnt):
         Nm = S.shape[1]
         if opt is None:
             opt = MinL1InL2Ball.Options()
+
+        # Signal array is required by the dual variable initialiser
+        self.set_dtype(opt, S.dtype)
+        self.S = np.asarray(S, dtype=self.dtype)
+
         super(MinL1InL2Ball, self).__init__(Nc * Nm, (Nc + Nr, Nm), 0, Nc,
                                             S.dtype, opt)
 
@@ -1068,7 +1073,6 @@ class MinL1InL2Ball(admm.ADMMTwoBlockCnstrnt):
         self.epsilon = self.dtype.type(epsilon)
         self.wl1 = np.asarray(opt['L1Weight'], dtype=self.dtype)
 
-        self.S = np.asarray(S, dtype=self.dtype)
         self.setdict(D)
 
 
diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 2295da2..3397577 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2034,9 +2034,8 @@ class ConvMinL1InL2Ball(ConvTwoBlockCnstrnt):
             # If initial Y is non-zero, initial U is chosen so that
             # the relevant dual optimality criterion (see (3.10) in
             # boyd-2010-distributed) is satisfied.
-            U0 = np.sign(self.block_sep0(self.Y)) / self.rho
-            U1 = self.block_sep1(self.Y) - sl.atleast_nd(self.cri.dimN+3,
-                                                         self.S)
+            U0 = self.block_sep0(self.Y)
+            U1 = np.sign(self.block_sep1(self.Y)) / self.rho
             return self.block_cat(U0, U1)
 
 
@@ -2234,13 +2233,20 @@ class ConvBPDNMaskDcpl(ConvTwoBlockCnstrnt):
         if opt is None:
             opt = ConvBPDNMaskDcpl.Options()
 
-        super(ConvBPDNMaskDcpl, self).__init__(D, S, opt, dimK=dimK, dimN=dimN)
+        # Set dtype attribute based on S.dtype and opt['DataType']
+        self.set_dtype(opt, S.dtype)
 
+        # Parameters required by the dual variable initialiser are set
+        # before calling the parent class __init__
         self.lmbda = self.dtype.type(lmbda)
         if W is None:
             W = np.array([1.0], dtype=self.dtype)
-        self.W = np.asarray(W.reshape(cr.mskWshape(W, self.cri)),
+        cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
+        self.W = np.asarray(W.reshape(cr.mskWshape(W, cri)),
                             dtype=self.dtype)
+
+        super(ConvBPDNMaskDcpl, self).__init__(D, S, opt, dimK=dimK, dimN=dimN)
+
         self.wl1 = np.asarray(opt['L1Weight'], dtype=self.dtype)
         self.wl1 = self.wl1.reshape(cr.l1Wshape(self.wl1, self.cri))
 
-- 
2.43.0


From adddfd0e7b63b2deb3f3b3572e7939649a5d7384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:28 +0000
Subject: [PATCH 09/75] fix: AddMaskSim.setdict appends the impulse filters

---
 sporco/admm/cbpdn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 3397577..88d28f4 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2459,8 +2459,8 @@ class AddMaskSim(object):
     def setdict(self, D=None):
         """Set dictionary array."""
 
-        Di = np.concatenate((D, sl.atleast_nd(D.ndim, self.imp)),
-                            axis=D.ndim-1)
+        imp = self.imp.reshape(D.shape[0:-1] + (self.cri.Cd,))
+        Di = np.concatenate((D, imp), axis=D.ndim-1)
         self.cbpdn.setdict(Di)
 
 
-- 
2.43.0


From 6fda0075b57fb19f9a46c514b72ae170b2488849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:28 +0000
Subject: [PATCH 10/75] fix: ConvL1L1Grd can be used with the HighMemSolve
 option

---
 sporco/admm/cbpdn.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 88d28f4..116782b 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2673,9 +2673,11 @@ class ConvL1L1Grd(ConvBPDNMaskDcpl):
         if opt is None:
             opt = ConvL1L1Grd.Options()
 
-        super(ConvL1L1Grd, self).__init__(D, S, lmbda, W, opt, dimK=dimK,
-                                          dimN=dimN)
+        # Set dtype attribute based on S.dtype and opt['DataType']
+        self.set_dtype(opt, S.dtype)
 
+        # The gradient term is set up before calling the parent class
+        # __init__ since it is required by setdict
         self.mu = self.dtype.type(mu)
         if hasattr(opt['GradWeight'], 'ndim'):
             self.Wgrd = np.asarray(opt['GradWeight'].reshape((1,)*(dimN+2) +
@@ -2683,10 +2685,14 @@ class ConvL1L1Grd(ConvBPDNMaskDcpl):
         else:
             self.Wgrd = np.asarray(opt['GradWeight'], dtype=self.dtype)
 
-        self.Gf, GHGf = gradient_filters(self.cri.dimN+3, self.cri.axisN,
-                                         self.cri.Nv, dtype=self.dtype)
+        cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
+        self.Gf, GHGf = gradient_filters(cri.dimN+3, cri.axisN, cri.Nv,
+                                         dtype=self.dtype)
         self.GHGf = self.Wgrd * GHGf
 
+        super(ConvL1L1Grd, self).__init__(D, S, lmbda, W, opt, dimK=dimK,
+                                          dimN=dimN)
+
 
 
     def setdict(self, D=None):
-- 
2.43.0


From 23c4b2b4863b80ee9dfbd96d3fa10b74d12ec94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:18 +0000
Subject: [PATCH 11/75] fix: MultiDictConvBPDN.reconstruct does not use an
 undefined function

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 116782b..0bb737c 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2935,7 +2935,7 @@ class MultiDictConvBPDN(object):
 
         if X is None:
             X = self.getcoef()
-        Xf = rfftn(X, None, self.cbpdn.cri.axisN)
+        Xf = self.cbpdn.fftn(X, None, self.cbpdn.cri.axisN)
         slc = (slice(None),)*self.dimN + \
               (slice(self.chncs[b], self.chncs[b+1]),)
         Sf = np.sum(self.cbpdn.Df[slc] * Xf, axis=self.cbpdn.cri.axisM)
-- 
2.43.0


From 1dd25032c6f9b5f24fa66f8a799e8035359ac494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:18 +0000
Subject: [PATCH 12/75] fix: ConvL1L1Grd.obfn_g0 is evaluated at its argument

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 0bb737c..28937ba 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2783,7 +2783,7 @@ class ConvL1L1Grd(ConvBPDNMaskDcpl):
         function.
         """
 
-        return np.sum(np.abs(self.W * self.obfn_g0var()))
+        return np.sum(np.abs(self.W * Y0))
 
 
 
-- 
2.43.0


From da8eb7854aed17f19a20417a6279415999967f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:39 +0000
Subject: [PATCH 13/75] fix: MultiDictConvBPDN stacks multi-channel signals on
 the channel axis

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 28937ba..a65ae09 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2888,7 +2888,7 @@ class MultiDictConvBPDN(object):
         # Construct single signal array (this is simpler since all
         # members of the signal set are assumed to be of the same
         # size)
-        Sm = np.concatenate([S[b][slc0] for b in range(0, len(S))], dimN+dimC)
+        Sm = np.concatenate([S[b][slc0] for b in range(0, len(S))], dimN)
 
         # Construct inner cbpdn object
         self.cbpdn = cbpdnclass(Dm, Sm, *args, **kwargs)
-- 
2.43.0


From ff34c224002a350d912e1c63d8739972d60985e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:53 +0000
Subject: [PATCH 14/75] fix: AddMaskSim applies a mask with singleton axes to
 all channels and signals

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index a65ae09..b37835d 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2418,7 +2418,7 @@ class AddMaskSim(object):
         self.inner_ystep()
         # Apply mask to AMS component and insert into Y from inner
         # cbpdn object
-        Yi[np.where(self.W.astype(bool))] = 0.0
+        Yi[np.where(np.broadcast_to(self.W.astype(bool), Yi.shape))] = 0.0
         self.cbpdn.Y[amidx] = Yi
 
 
-- 
2.43.0


From 4462887a34f3ad4e7717e25769bca977c40fe2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:57 +0000
Subject: [PATCH 15/75] fix: ConvBPDNScalarTV shrinks the gradient at each
 sample, not that of the whole array

---
 sporco/admm/cbpdntv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 5981405..6baf958 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -316,7 +316,8 @@ class ConvBPDNScalarTV(admm.ADMM):
         :math:`\mathbf{y}`."""
 
         AXU = self.AX + self.U
-        self.Y[..., 0:-1] = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho)
+        self.Y[..., 0:-1] = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho,
+                                       axis=-1)
         self.Y[..., -1] = sp.prox_l1(AXU[..., -1],
                                      (self.lmbda/self.rho) * self.Wl1)
 
-- 
2.43.0


From fdd31db11a9afae31a41aa7acae5d14f62619138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:57 +0000
Subject: [PATCH 16/75] fix: ConvBPDNScalarTV and ConvBPDNVectorTV x step is
 exact for filter-dependent TVWeight

---
 sporco/admm/cbpdntv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 6baf958..7de7817 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -256,7 +256,7 @@ class ConvBPDNScalarTV(admm.ADMM):
         if self.cri.Cd > 1:
             self.DSf = np.sum(self.DSf, axis=self.cri.axisC, keepdims=True)
         if self.opt['HighMemSolve'] and self.cri.Cd == 1:
-            self.c = sl.solvedbi_sm_c(
+            self.c = sl.solvedbd_sm_c(
                 self.Df, np.conj(self.Df), self.rho*self.GHGf + self.rho,
                 self.cri.axisM)
         else:
@@ -268,7 +268,7 @@ class ConvBPDNScalarTV(admm.ADMM):
         """Updated cached c array when rho changes."""
 
         if self.opt['HighMemSolve'] and self.cri.Cd == 1:
-            self.c = sl.solvedbi_sm_c(
+            self.c = sl.solvedbd_sm_c(
                 self.Df, np.conj(self.Df), self.rho*self.GHGf + self.rho,
                 self.cri.axisM)
 
@@ -287,7 +287,7 @@ class ConvBPDNScalarTV(admm.ADMM):
             np.conj(self.Gf) * YUf[..., 0:-1], axis=-1))
 
         if self.cri.Cd == 1:
-            self.Xf[:] = sl.solvedbi_sm(
+            self.Xf[:] = sl.solvedbd_sm(
                 self.Df, self.rho*self.GHGf + self.rho, b, self.c,
                 self.cri.axisM)
         else:
-- 
2.43.0


From 48a646e5a796d7b909228d92ef215d9392856f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:57 +0000
Subject: [PATCH 17/75] fix: ConvBPDNRecTV y step is not lost for a
 multi-channel dictionary and multiple signals

---
 sporco/admm/cbpdntv.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 7de7817..7048673 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -1101,10 +1101,11 @@ class ConvBPDNRecTV(admm.ADMM):
         :math:`\mathbf{y}`."""
 
         AXU = self.AX + self.U
-        self.block_sep0(self.Y)[:] = sp.prox_l1(
-            self.block_sep0(AXU), (self.lmbda/self.rho) * self.Wl1)
-        self.block_sep1(self.Y)[:] = sp.prox_l2(
-            self.block_sep1(AXU), self.mu/self.rho, axis=(self.cri.axisC, -1))
+        Y0 = sp.prox_l1(self.block_sep0(AXU),
+                        (self.lmbda/self.rho) * self.Wl1)
+        Y1 = sp.prox_l2(self.block_sep1(AXU), self.mu/self.rho,
+                        axis=(self.cri.axisC, -1))
+        self.Y = self.block_cat(Y0, Y1)
 
 
 
-- 
2.43.0


From 7ec8e3c44254b69002b1f6dfd33e6dd9dc77c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:02 +0000
Subject: [PATCH 18/75] fix: ConvProdDictBPDN.setdict with only a new standard
 dictionary updates the right hand side

---
 sporco/admm/pdcsc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 90ecec5..82b59c6 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -116,8 +116,8 @@ class ConvProdDictBPDN(cbpdn.ConvBPDN):
         if D is not None or not hasattr(self, 'Df'):
             self.Df = rfftn(self.D, self.cri.Nv, self.cri.axisN)
             self.DSf = np.conj(self.Df) * self.Sf
-            self.DSfBQ = dot(self.B.dot(self.Q).T, self.DSf,
-                             axis=self.cri.axisC)
+
+        self.DSfBQ = dot(self.B.dot(self.Q).T, self.DSf, axis=self.cri.axisC)
 
         # Fold square root of Gamma into the dictionary array to enable
         # use of the solvedbi_sm solver
-- 
2.43.0


From f2e89ea4ba02bfe130dc3407144194995b7079b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:02 +0000
Subject: [PATCH 19/75] fix: ConvProdDictL1L1Grd does not discard the initial
 primal and dual variables

---
 sporco/admm/pdcsc.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 82b59c6..51984b5 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -398,12 +398,23 @@ class ConvProdDictL1L1Grd(cbpdn.ConvL1L1Grd):
         self.y0I = int(np.prod(np.array(self.y0shp[self.cri.axisC:])))
         self.y1I = int(np.prod(np.array(self.y1shp[self.cri.axisC:])))
         self.yshp = self.cri.shpX[0:self.cri.axisC:] + (self.y0I + self.y1I,)
-        self.Y = np.zeros(self.yshp, dtype=self.dtype)
-        self.U = np.zeros(self.yshp, dtype=self.dtype)
+        if self.opt['Y0'] is None:
+            self.Y = np.zeros(self.yshp, dtype=self.dtype)
+        if self.opt['U0'] is None:
+            self.U = np.zeros(self.yshp, dtype=self.dtype)
+        self.Yprev = self.Y.copy()
         self.YU = empty_aligned(self.Y.shape, dtype=self.dtype)
 
 
 
+    def uinit(self, ushape):
+        """Return initialiser for working variable U."""
+
+        # The shape of this array is corrected in the __init__ method
+        return np.zeros(ushape, dtype=self.dtype)
+
+
+
     def block_sep0(self, Y):
         r"""Separate variable into component corresponding to
         :math:`\mathbf{y}_0` in :math:`\mathbf{y}\;\;`.
-- 
2.43.0


From bf1f5000b401bd8a866aa2a61f6099600429d879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:26 +0000
Subject: [PATCH 20/75] fix: ConvProdDictL1L1GrdJoint can be constructed with
 default options

---
 sporco/admm/pdcsc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 51984b5..5e2b151 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -683,6 +683,10 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
           Number of spatial dimensions
         """
 
+        # Set default options if none specified
+        if opt is None:
+            opt = ConvProdDictL1L1GrdJoint.Options()
+
         super(ConvProdDictL1L1GrdJoint, self).__init__(D, B, S, lmbda, mu,
                                             opt=opt, dimK=dimK, dimN=dimN)
         self.wl21 = np.asarray(opt['L21Weight'], dtype=self.dtype)
-- 
2.43.0


From f4ce895f31c0ac46feb282359c28d0415a546ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:03 +0000
Subject: [PATCH 21/75] fix: residual normalisation terms of
 WeightedADMMConsensus for the documented weighted constraint

---
 sporco/admm/admm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/admm.py b/sporco/admm/admm.py
index babe48c..89dadb5 100644
--- a/sporco/admm/admm.py
+++ b/sporco/admm/admm.py
@@ -1862,11 +1862,14 @@ class WeightedADMMConsensus(ADMMConsensus):
         # block replication introduced by multiplication by the B
         # including the alpha weighting factors
         return max((np.linalg.norm(np.sqrt(self.alphaxd) * AX),
-                    np.sqrt(np.sum(self.alpha**2)) * np.linalg.norm(Y)))
+                    np.sqrt(np.sum(self.alpha)) * np.linalg.norm(Y)))
 
 
 
     def rsdl_sn(self, U):
         """Compute dual residual normalisation term."""
 
-        return self.rho * np.linalg.norm(U)
+        # The (scaled) dual variable of the constraint with scaling
+        # factors sqrt(alpha) is sqrt(alpha) u, so that A^T maps it to
+        # alpha u
+        return self.rho * np.linalg.norm(self.alphaxd * U)
-- 
2.43.0


From 7a2401919c713d243c149cb9261d67c2199e2d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:07 +0000
Subject: [PATCH 22/75] fix: application of L1Weight in reported l1 term of
 ConvBPDNScalarTV and ConvBPDNVectorTV

---
 sporco/admm/cbpdntv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 7048673..c022be2 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -442,7 +442,8 @@ class ConvBPDNScalarTV(admm.ADMM):
         function.
         """
 
-        rl1 = np.linalg.norm((self.Wl1 * self.obfn_g1var()).ravel(), 1)
+        rl1 = np.linalg.norm((self.Wl1[..., np.newaxis] *
+                              self.obfn_g1var()).ravel(), 1)
         rtv = np.sum(np.sqrt(np.sum(self.obfn_g0var()**2, axis=-1)))
         return (self.lmbda*rl1 + self.mu*rtv, rl1, rtv)
 
@@ -722,7 +723,8 @@ class ConvBPDNVectorTV(ConvBPDNScalarTV):
         function.
         """
 
-        rl1 = np.linalg.norm((self.Wl1 * self.obfn_g1var()).ravel(), 1)
+        rl1 = np.linalg.norm((self.Wl1[..., np.newaxis] *
+                              self.obfn_g1var()).ravel(), 1)
         rtv = np.sum(np.sqrt(np.sum(self.obfn_g0var()**2,
                                     axis=(self.cri.axisM, -1))))
         return (self.lmbda*rl1 + self.mu*rtv, rl1, rtv)
-- 
2.43.0


From 6d6992616c0458ac591d289765a19e679544114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:07 +0000
Subject: [PATCH 23/75] fix: application of L21Weight arrays in reported l2,1
 term

---
 sporco/admm/cbpdn.py | 3 ++-
 sporco/admm/pdcsc.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index b37835d..ae1b54d 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -807,7 +807,8 @@ class ConvBPDNJoint(ConvBPDN):
 
         rl1 = np.linalg.norm((self.wl1 * self.obfn_gvar()).ravel(), 1)
         rl21 = np.sum(self.wl21 * np.sqrt(np.sum(self.obfn_gvar()**2,
-                                                 axis=self.cri.axisC)))
+                                                 axis=self.cri.axisC,
+                                                 keepdims=True)))
         return (self.lmbda*rl1 + self.mu*rl21, rl1, rl21)
 
 
diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 5e2b151..6d92b60 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -713,4 +713,5 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
         function.
         """
 
-        return np.sum(self.wl21 * np.sqrt(np.sum(Y1**2, axis=self.cri.axisC)))
+        return np.sum(self.wl21 * np.sqrt(np.sum(Y1**2, axis=self.cri.axisC,
+                                                 keepdims=True)))
-- 
2.43.0


From cad28a4e5caf039af74822e4547e110710ba7e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:08 +0000
Subject: [PATCH 24/75] fix: adjoint of ConvBPDNRecTV constraint operator for
 multi-channel dictionaries

---
 sporco/admm/cbpdntv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index c022be2..9475b25 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -1283,8 +1283,10 @@ class ConvBPDNRecTV(admm.ADMM):
         """
 
         Y1f = rfftn(Y1, None, axes=self.cri.axisN)
-        return irfftn(np.conj(self.GDf) * Y1f, self.cri.Nv,
-                      self.cri.axisN)
+        AT1f = np.conj(self.GDf) * Y1f
+        if self.cri.Cd > 1:
+            AT1f = np.sum(AT1f, axis=self.cri.axisC, keepdims=True)
+        return irfftn(AT1f, self.cri.Nv, self.cri.axisN)
 
 
 
-- 
2.43.0


From 23f4da9d81ed47f17eb519a369b5d172dc99c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:45 +0000
Subject: [PATCH 25/75] fix: number of x variables in ConvTwoBlockCnstrnt
 includes the channel axis

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index ae1b54d..d483bf5 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -1590,7 +1590,7 @@ class ConvTwoBlockCnstrnt(admm.ADMMTwoBlockCnstrnt):
         self.y0swapaxes = bool(self.cri.C > 1 and self.cri.Cd > 1)
 
         # Call parent class __init__
-        Nx = self.cri.M * self.cri.N * self.cri.K
+        Nx = np.prod(np.array(self.cri.shpX))
         shpY = list(self.cri.shpX)
         if self.y0swapaxes:
             shpY[self.cri.axisC] = 1
-- 
2.43.0


From abb7748a9d611b68a1d11bc106edc643681d9756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:45 +0000
Subject: [PATCH 26/75] fix: number of constraints of ConvProdDictL1L1Grd
 corresponds to its corrected variable shape

---
 sporco/admm/pdcsc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 6d92b60..7621df1 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -398,6 +398,7 @@ class ConvProdDictL1L1Grd(cbpdn.ConvL1L1Grd):
         self.y0I = int(np.prod(np.array(self.y0shp[self.cri.axisC:])))
         self.y1I = int(np.prod(np.array(self.y1shp[self.cri.axisC:])))
         self.yshp = self.cri.shpX[0:self.cri.axisC:] + (self.y0I + self.y1I,)
+        self.Nc = int(np.prod(np.array(self.yshp)))
         if self.opt['Y0'] is None:
             self.Y = np.zeros(self.yshp, dtype=self.dtype)
         if self.opt['U0'] is None:
-- 
2.43.0


From c2c1fb130b99c3c81e3b6ff9963c874669f3d639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:43 +0000
Subject: [PATCH 27/75] fix: monotone PGM evaluates the objective of the first
 iterate

---
 sporco/pgm/pgm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 0f25ea5..5631b21 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -410,10 +410,10 @@ class PGM(IterativeSolver):
 
         self.X = self.prox_g(V)
 
-        if self.opt['Monotone'] and self.k > 0:
+        if self.opt['Monotone']:
             self.ZZ = self.X.copy()
             self.objfn = self.eval_objfn()
-            if self.objfn_prev[0] < self.objfn[0]:
+            if self.k > 0 and self.objfn_prev[0] < self.objfn[0]:
                 # If increment on objective function
                 # revert to previous iterate
                 self.X = self.Xprv.copy()
@@ -799,10 +799,10 @@ class PGMDFT(PGM):
         self.X[:] = self.prox_g(V)
         self.Xf = rfftn(self.X, None, self.axisN)
 
-        if self.opt['Monotone'] and self.k > 0:
+        if self.opt['Monotone']:
             self.ZZf = self.Xf.copy()
             self.objfn = self.eval_objfn()
-            if self.objfn_prev[0] < self.objfn[0]:
+            if self.k > 0 and self.objfn_prev[0] < self.objfn[0]:
                 # If increment on objective function
                 # revert to previous iterate
                 self.Xf = self.Xfprv.copy()
-- 
2.43.0


From 6889e2d33dd270e812ec5e030925b3b9c0787a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:44 +0000
Subject: [PATCH 28/75] fix: monotone PGMDFT reverts the spatial domain iterate
 when a step is rejected

---
 sporco/pgm/pgm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 5631b21..50ffe93 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -805,6 +805,7 @@ class PGMDFT(PGM):
             if self.k > 0 and self.objfn_prev[0] < self.objfn[0]:
                 # If increment on objective function
                 # revert to previous iterate
+                self.X[:] = self.Xprv
                 self.Xf = self.Xfprv.copy()
                 self.objfn = self.objfn_prev
 
@@ -835,6 +836,7 @@ class PGMDFT(PGM):
     def on_iteration_start(self):
         """Store previous X and Y in frequency domain."""
 
+        self.Xprv = self.X.copy()
         self.Xfprv = self.Xf.copy()
         if (not self.opt['FastSolve'] or isinstance(self.backtrack,
                                                     BacktrackRobust)):
-- 
2.43.0


From e441431625b36a99630f1ca61eb01217ae1a6c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:44 +0000
Subject: [PATCH 29/75] fix: backtracking state is not shared by PGM objects
 with the same options object

---
 sporco/pgm/pgm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 50ffe93..e37909f 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -264,7 +264,8 @@ class PGM(IterativeSolver):
         self.F = None
         self.Q = None
         self.iterBTrack = None
-        self.backtrack = self.opt['Backtrack']
+        # Copied since the backtracking object may hold solver state
+        self.backtrack = copy.deepcopy(self.opt['Backtrack'])
 
         self.Y = None
 
-- 
2.43.0


From 0bc728695e16ac235ee9aeec74827678b4733f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:44 +0000
Subject: [PATCH 30/75] fix: pgm.bpdn.BPDN.reconstruct uses its argument

---
 sporco/pgm/bpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/pgm/bpdn.py b/sporco/pgm/bpdn.py
index 7b5f8e4..08844f6 100644
--- a/sporco/pgm/bpdn.py
+++ b/sporco/pgm/bpdn.py
@@ -239,7 +239,7 @@ class BPDN(pgm.PGM):
 
         if X is None:
             X = self.X
-        return self.D.dot(self.X)
+        return self.D.dot(X)
 
 
 
-- 
2.43.0


From 4c2151724a60a172e6090a0e7084414b3ead95a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:09 +0000
Subject: [PATCH 31/75] fix: Hessian of WeightedBPDN includes the weights

---
 sporco/pgm/bpdn.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sporco/pgm/bpdn.py b/sporco/pgm/bpdn.py
index 08844f6..ef99126 100644
--- a/sporco/pgm/bpdn.py
+++ b/sporco/pgm/bpdn.py
@@ -359,6 +359,13 @@ class WeightedBPDN(BPDN):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        return self.D.T.dot(self.W * self.D.dot(V))
+
+
+
     def obfn_f(self, X=None):
         r"""Compute data fidelity term :math:`(1/2) \| D \mathbf{x} -
         \mathbf{s} \|_W^2`.
-- 
2.43.0


From 9cc4ba7e1226ea53e3dba15e8707460d078aa6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:09 +0000
Subject: [PATCH 32/75] fix: Hessian of ConvBPDNMask includes the mask

---
 sporco/pgm/cbpdn.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sporco/pgm/cbpdn.py b/sporco/pgm/cbpdn.py
index 6859a2b..3238c36 100644
--- a/sporco/pgm/cbpdn.py
+++ b/sporco/pgm/cbpdn.py
@@ -479,6 +479,21 @@ class ConvBPDNMask(ConvBPDN):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        DV = irfftn(inner(self.Df, V, axis=self.cri.axisM),
+                    self.cri.Nv, self.cri.axisN)
+        WDVf = rfftn(self.W**2 * DV, self.cri.Nv, self.cri.axisN)
+        hessfv = np.conj(self.Df) * WDVf
+        # Multiple channel signal, multiple channel dictionary
+        if self.cri.Cd > 1:
+            hessfv = np.sum(hessfv, axis=self.cri.axisC, keepdims=True)
+
+        return hessfv
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \| W (\sum_m
         \mathbf{d}_m * \mathbf{x}_{m} - \mathbf{s}) \|_2^2`
-- 
2.43.0


From c4d140940a489ce24a82befb821c392fd2fcd642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:09 +0000
Subject: [PATCH 33/75] fix: Hessian of ConvCnstrMODMask includes the mask

---
 sporco/pgm/ccmod.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sporco/pgm/ccmod.py b/sporco/pgm/ccmod.py
index 2059b28..72175cc 100644
--- a/sporco/pgm/ccmod.py
+++ b/sporco/pgm/ccmod.py
@@ -576,6 +576,22 @@ class ConvCnstrMODMask(ConvCnstrMOD):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        ZV = irfftn(inner(self.Zf, V, axis=self.cri.axisM),
+                    self.cri.Nv, self.cri.axisN)
+        WZVf = rfftn(self.W**2 * ZV, self.cri.Nv, self.cri.axisN)
+        hessfv = inner(np.conj(self.Zf), WZVf, axis=self.cri.axisK)
+
+        # Multiple channel signal, single channel dictionary
+        if self.cri.C > 1 and self.cri.Cd == 1:
+            hessfv = np.sum(hessfv, axis=self.cri.axisC, keepdims=True)
+
+        return hessfv
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \sum_k \| W (\sum_m
         \mathbf{d}_m * \mathbf{x}_{k,m} - \mathbf{s}_k) \|_2^2`
-- 
2.43.0


From 3e7e48f91743b2152f2a222a80d705664dc79d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:09 +0000
Subject: [PATCH 34/75] fix: pgm.cmod.CnstrMOD.reconstruct does not use an
 undefined attribute

---
 sporco/pgm/cmod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index db89512..c6f9894 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -229,7 +229,7 @@ class CnstrMOD(pgm.PGM):
 
         if X is None:
             X = self.X
-        return self.D.dot(self.X)
+        return X.dot(self.Z)
 
 
 
-- 
2.43.0


From 934d155ccd6c545182684691d810d19448d3acc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:09 +0000
Subject: [PATCH 35/75] fix: Hessian of WeightedCnstrMOD includes the weights

---
 sporco/pgm/cmod.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index c6f9894..2178d73 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -325,6 +325,13 @@ class WeightedCnstrMOD(CnstrMOD):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        return (self.W * V.dot(self.Z)).dot(self.Z.T)
+
+
+
     def obfn_f(self, X=None):
         r"""Compute data fidelity term :math:`(1/2) \| D \mathbf{x} -
         \mathbf{s} \|_W^2`.
-- 
2.43.0


From 8ee60fb45b3bbe260c0b32224302cf2d259bc93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:09 +0000
Subject: [PATCH 36/75] fix: rho update of ConvCnstrMODMaskDcpl_Consensus
 rescales the mask block dual variable

---
 sporco/admm/ccmodmd.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sporco/admm/ccmodmd.py b/sporco/admm/ccmodmd.py
index 7bf82bb..ee7b06b 100644
--- a/sporco/admm/ccmodmd.py
+++ b/sporco/admm/ccmodmd.py
@@ -979,6 +979,17 @@ class ConvCnstrMODMaskDcpl_Consensus(ccmod.ConvCnstrMOD_Consensus):
 
 
 
+    def update_rho(self, k, r, s):
+        """Automatic rho adjustment."""
+
+        rhoprv = self.rho
+        super(ConvCnstrMODMaskDcpl_Consensus, self).update_rho(k, r, s)
+        # Rescale the scaled dual variable of the second block, which
+        # is unknown to the parent class
+        self.U1 *= rhoprv / self.rho
+
+
+
     def compute_residuals(self):
         """Compute residuals and stopping thresholds. The parent class
         method is overridden to ensure that the residual calculations
-- 
2.43.0


From c1f8cd0c56d5d8ade530b35be1de70e28ccc26b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:23 +0000
Subject: [PATCH 37/75] fix: primal residual normalisation and tolerance of
 ConvCnstrMODMaskDcpl_Consensus

---
 sporco/admm/ccmodmd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/ccmodmd.py b/sporco/admm/ccmodmd.py
index ee7b06b..3b84b01 100644
--- a/sporco/admm/ccmodmd.py
+++ b/sporco/admm/ccmodmd.py
@@ -873,6 +873,10 @@ class ConvCnstrMODMaskDcpl_Consensus(ccmod.ConvCnstrMOD_Consensus):
         self.U1 = np.zeros(self.S.shape, dtype=self.dtype)
         self.YU1 = empty_aligned(self.S.shape, dtype=self.dtype)
 
+        # Include the constraints associated with these variables in
+        # the number of constraints
+        self.Nc += np.prod(np.array(self.S.shape))
+
 
 
     def setcoef(self, Z):
@@ -1015,7 +1019,7 @@ class ConvCnstrMODMaskDcpl_Consensus(ccmod.ConvCnstrMOD_Consensus):
         # straightforward
         nAX = np.sqrt(np.linalg.norm(self.AXnr)**2 +
                       np.linalg.norm(self.AX1nr)**2)
-        nY = np.sqrt(np.linalg.norm(self.Y)**2 +
+        nY = np.sqrt(self.Nb * np.linalg.norm(self.Y)**2 +
                      np.linalg.norm(self.Y1)**2)
         rn = max(nAX, nY, np.linalg.norm(self.S))
 
-- 
2.43.0


From eb167bb27e3e1c10766c304bd4237ebc84adc496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:52 +0000
Subject: [PATCH 38/75] fix: ParConvBPDN options Y0, Y1, U0, U1 set the solver
 variables

---
 sporco/admm/parcbpdn.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index 79dbb4a..df09491 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -638,8 +638,9 @@ class ParConvBPDN(GenericConvBPDN):
         global mp_Df
         init_mpraw('mp_Df', np.moveaxis(self.Df, self.cri.axisM, mp_axisM))
         global mp_X
-        init_mpraw('mp_X', np.moveaxis(self.Y, self.cri.axisM, mp_axisM))
-        shp_X = list(mp_X.shape)
+        shp_X = list(self.cri.shpX)
+        shp_X.insert(mp_axisM, shp_X.pop(self.cri.axisM))
+        mp_X = mpraw_as_np(shp_X, self.dtype)
         global mp_Xnr
         mp_Xnr = mpraw_as_np(mp_X.shape, mp_X.dtype)
         global mp_Y0
@@ -647,7 +648,7 @@ class ParConvBPDN(GenericConvBPDN):
         shp_Y0[0] = self.ngrp
         shp_Y0[mp_axisC] = mp_C
         if self.opt['Y0'] is not None:
-            init_mpraw('Y0', np.moveaxis(
+            init_mpraw('mp_Y0', np.moveaxis(
                 self.opt['Y0'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
@@ -656,7 +657,7 @@ class ParConvBPDN(GenericConvBPDN):
         mp_Y0old = mpraw_as_np(shp_Y0, mp_X.dtype)
         global mp_Y1
         if self.opt['Y1'] is not None:
-            init_mpraw('Y1', np.moveaxis(
+            init_mpraw('mp_Y1', np.moveaxis(
                 self.opt['Y1'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
@@ -665,14 +666,14 @@ class ParConvBPDN(GenericConvBPDN):
         mp_Y1old = mpraw_as_np(shp_X, mp_X.dtype)
         global mp_U0
         if self.opt['U0'] is not None:
-            init_mpraw('U0', np.moveaxis(
+            init_mpraw('mp_U0', np.moveaxis(
                 self.opt['U0'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
             mp_U0 = mpraw_as_np(shp_Y0, mp_X.dtype)
         global mp_U1
         if self.opt['U1'] is not None:
-            init_mpraw('U1', np.moveaxis(
+            init_mpraw('mp_U1', np.moveaxis(
                 self.opt['U1'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
-- 
2.43.0


From 4debc4357162bad0b8a8c13b5644c1e5b12b1822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 39/75] fix: ParConvBPDN x step sums over the channel axis

---
 sporco/admm/parcbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index df09491..63af2c9 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -151,7 +151,7 @@ def par_xstep(i):
                             mp_cache[i], axis=mp_axisM)
     else:
         b = sl.inner(np.conj(mp_Df[mp_grp[i]:mp_grp[i+1]]), YU0f,
-                     axis=mp_C) + mp_alpha**2*YU1f
+                     axis=mp_axisC) + mp_alpha**2*YU1f
         Xf = sl.solvemdbi_ism(mp_Df[mp_grp[i]:mp_grp[i+1]], mp_alpha**2, b,
                               mp_axisM, mp_axisC)
     mp_X[mp_grp[i]:mp_grp[i+1]] = irfftn(Xf, mp_Nv,
-- 
2.43.0


From 42a132032418b0fc640fbf54e160eacdaa0df857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 40/75] fix: ParConvBPDN iteration statistics are those of the
 current iterate

---
 sporco/admm/parcbpdn.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index 63af2c9..f324322 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -766,16 +766,20 @@ class ParConvBPDN(GenericConvBPDN):
 
         first_iteration = self.k
         last_iteration = self.k + self.opt['MaxMainIter'] - 1
+        # The end of one iteration can only be merged with the start of
+        # the next one if nothing needs to access the variables in between
+        merge = self.opt['FastSolve'] and not self.opt['AutoRho', 'Enabled'] \
+          and self.opt['Callback'] is None
         # Main optimisation iterations
         for self.k in range(self.k, self.k + self.opt['MaxMainIter']):
             mp_Y0old[:] = np.copy(mp_Y0)
             mp_Y1old[:] = np.copy(mp_Y1)
 
             # Perform the variable updates.
-            if self.k is first_iteration:
+            if self.k == first_iteration or not merge:
                 self.distribute(par_initial_stepgrp, mp_ngrp)
             y0astep()
-            if self.k is last_iteration:
+            if self.k == last_iteration or not merge:
                 self.distribute(par_final_stepgrp, mp_ngrp)
             else:
                 self.distribute(par_stepgrp, mp_ngrp)
-- 
2.43.0


From b802a0bd73a7cf6e9cd3d0da3a70d55d0d5a8116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 41/75] fix: ParConvBPDN returns and evaluates the primal
 variable before relaxation

---
 sporco/admm/parcbpdn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index f324322..a1b04ac 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -833,7 +833,7 @@ class ParConvBPDN(GenericConvBPDN):
         self.display_end(nsep)
 
         self.Y = np.moveaxis(mp_Y1, mp_axisM, self.cri.axisM)
-        self.X = np.moveaxis(mp_X, mp_axisM, self.cri.axisM)
+        self.X = np.moveaxis(mp_Xnr, mp_axisM, self.cri.axisM)
 
         self.terminate_pool()
 
@@ -890,7 +890,7 @@ class ParConvBPDN(GenericConvBPDN):
         depending on the ``gEvalY`` option value.
         """
 
-        return mp_Y1 if self.opt['gEvalY'] else mp_X
+        return mp_Y1 if self.opt['gEvalY'] else mp_Xnr
 
 
 
@@ -898,7 +898,7 @@ class ParConvBPDN(GenericConvBPDN):
         """Variable to be evaluated in computing :meth:`ADMM.obfn_f`,
         depending on the ``fEvalX`` option value.
         """
-        return mp_X if self.opt['fEvalX'] else mp_Y1
+        return mp_Xnr if self.opt['fEvalX'] else mp_Y1
 
 
 
-- 
2.43.0


From b4ca20c6c0bc56fa8275f8350792a9d66edde131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:10 +0000
Subject: [PATCH 42/75] fix: parallel dictionary learning applies the L1Weight,
 NonNegCoef and NoBndryCross options

---
 sporco/dictlrn/prlcnscdl.py | 52 +++++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/sporco/dictlrn/prlcnscdl.py b/sporco/dictlrn/prlcnscdl.py
index 913beee..07ff0ed 100644
--- a/sporco/dictlrn/prlcnscdl.py
+++ b/sporco/dictlrn/prlcnscdl.py
@@ -41,6 +41,10 @@ __all__ = ['ConvBPDNDictLearn_Consensus',
 mp_cri = None    # A cnvrep.CSC_ConvRepIndexing object describing problem
                  # dimensions
 mp_lmbda = None  # Regularisation parameter lambda
+mp_wl1 = None    # l1 term weighting array
+mp_Dshp = None   # Dictionary shape, if filter boundary crossing is to be
+                 # suppressed, otherwise None
+mp_NonNegCoef = None  # Flag indicating non-negativity of coefficient maps
 mp_dprox = None  # Projection operator of the dictionary update
 mp_xrho = None   # Penalty parameter of the X (cbpdn) step
 mp_drho = None   # Penalty parameter of the D (ccmod) step
@@ -149,6 +153,36 @@ def cbpdn_setdict():
 
 
 
+def cbpdn_prox(AXU, k):
+    """Compute the proximal operator of the regularisation term (including
+    weighting, non-negativity, and filter boundary crossing suppression,
+    if selected) of the cbpdn stage.
+
+    Parameters
+    ----------
+    AXU : ndarray
+      Input array for slice index `k`
+    k : int
+      Slice index
+
+    Returns
+    -------
+    Y : ndarray
+      Output array
+    """
+
+    wl1 = mp_wl1[k] if mp_wl1.shape[0] > 1 else mp_wl1[0]
+    Y = sp.prox_l1(AXU, (mp_lmbda/mp_xrho) * wl1)
+    if mp_NonNegCoef:
+        Y[Y < 0.0] = 0.0
+    if mp_Dshp is not None:
+        for n in range(0, mp_cri.dimN):
+            Y[(slice(None),)*n +
+              (slice(Y.shape[n] - mp_Dshp[n] + 1, None),)] = 0.0
+    return Y
+
+
+
 def cbpdn_xstep(k):
     """Do the X step of the cbpdn stage. The only parameter is the slice
     index `k` and there are no return values; all inputs and outputs are
@@ -182,7 +216,7 @@ def cbpdn_ystep(k):
     """
 
     AXU = mp_Z_X[k] + mp_Z_U[k]
-    mp_Z_Y[k] = sp.prox_l1(AXU, (mp_lmbda/mp_xrho))
+    mp_Z_Y[k] = cbpdn_prox(AXU, k)
 
 
 
@@ -454,6 +488,13 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
         mp_cri = self.xstep.cri
         global mp_lmbda
         mp_lmbda = self.xstep.lmbda
+        global mp_wl1
+        init_mpraw_swap('mp_wl1', self.xstep.wl1)
+        global mp_NonNegCoef
+        mp_NonNegCoef = self.opt['CBPDN', 'NonNegCoef']
+        global mp_Dshp
+        mp_Dshp = self.xstep.D.shape if self.opt['CBPDN', 'NoBndryCross'] \
+            else None
         global mp_xrho
         mp_xrho = self.xstep.rho
         global mp_drho
@@ -721,7 +762,7 @@ def cbpdnmd_ystep(k):
     AXU0 = mp_DX[k] - mp_S[k] + mp_Z_U0[k]
     AXU1 = mp_Z_X[k] + mp_Z_U1[k]
     mp_Z_Y0[k] = mp_xrho*AXU0 / (W**2 + mp_xrho)
-    mp_Z_Y1[k] = sp.prox_l1(AXU1, (mp_lmbda/mp_xrho))
+    mp_Z_Y1[k] = cbpdn_prox(AXU1, k)
 
 
 
@@ -1009,6 +1050,13 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
         mp_cri = self.xstep.cri
         global mp_lmbda
         mp_lmbda = self.xstep.lmbda
+        global mp_wl1
+        init_mpraw_swap('mp_wl1', self.xstep.wl1)
+        global mp_NonNegCoef
+        mp_NonNegCoef = self.opt['CBPDN', 'NonNegCoef']
+        global mp_Dshp
+        mp_Dshp = self.xstep.D.shape if self.opt['CBPDN', 'NoBndryCross'] \
+            else None
         global mp_xrho
         mp_xrho = self.xstep.rho
         global mp_drho
-- 
2.43.0


From 365eed44a3acb08ea3bf56b1757b6cc24fca5a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:37 +0000
Subject: [PATCH 43/75] fix: include L1Weight in the functional reported by
 dictionary learning classes

---
 sporco/dictlrn/bpdndl.py    | 2 +-
 sporco/dictlrn/cbpdndl.py   | 2 +-
 sporco/dictlrn/cbpdndlmd.py | 2 +-
 sporco/dictlrn/prlcnscdl.py | 4 ++--
 sporco/dictlrn/wbpdndl.py   | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sporco/dictlrn/bpdndl.py b/sporco/dictlrn/bpdndl.py
index fc6d67b..06bf2b4 100644
--- a/sporco/dictlrn/bpdndl.py
+++ b/sporco/dictlrn/bpdndl.py
@@ -200,7 +200,7 @@ class BPDNDictLearn(dictlrn.DictLearn):
             X = self.xstep.var_y()
             S = self.xstep.S
             dfd = 0.5*np.linalg.norm((D.dot(X) - S))**2
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1, ObjFun=dfd+self.xstep.lmbda*rl1)
         else:
             return None
diff --git a/sporco/dictlrn/cbpdndl.py b/sporco/dictlrn/cbpdndl.py
index 33eacd9..421bf77 100644
--- a/sporco/dictlrn/cbpdndl.py
+++ b/sporco/dictlrn/cbpdndl.py
@@ -517,7 +517,7 @@ class ConvBPDNDictLearn(dictlrn.DictLearn):
             Ef = inner(Df, Xf, axis=self.xstep.cri.axisM) - Sf
             dfd = rfl2norm2(Ef, self.xstep.S.shape,
                             axis=self.xstep.cri.axisN) / 2.0
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1,
                         ObjFun=dfd + self.xstep.lmbda * rl1)
         else:
diff --git a/sporco/dictlrn/cbpdndlmd.py b/sporco/dictlrn/cbpdndlmd.py
index a5b4b07..4832f87 100644
--- a/sporco/dictlrn/cbpdndlmd.py
+++ b/sporco/dictlrn/cbpdndlmd.py
@@ -533,7 +533,7 @@ class ConvBPDNMaskDictLearn(dictlrn.DictLearn):
                 X = self.xstep.getcoef()
             else:
                 X = self.xstep.var_y1()
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1,
                         ObjFun=dfd + self.xstep.lmbda * rl1)
         else:
diff --git a/sporco/dictlrn/prlcnscdl.py b/sporco/dictlrn/prlcnscdl.py
index 07ff0ed..fca24d5 100644
--- a/sporco/dictlrn/prlcnscdl.py
+++ b/sporco/dictlrn/prlcnscdl.py
@@ -672,7 +672,7 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
                       axis=self.xstep.cri.axisM+1) - Sf
         Ef = np.swapaxes(Ef, 0, self.xstep.cri.axisK+1)[0]
         dfd = fl2norm2(Ef, self.xstep.S.shape, axis=self.xstep.cri.axisN)/2.0
-        rl1 = np.sum(np.abs(X))
+        rl1 = np.sum(np.abs(mp_wl1 * X))
         obj = dfd + self.xstep.lmbda*rl1
         return (obj, dfd, rl1)
 
@@ -1251,7 +1251,7 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
                        self.xstep.cri.Nv, np.array(self.xstep.cri.axisN) + 1)
 
         dfd = (np.linalg.norm(W * (DX - S))**2) / 2.0
-        rl1 = np.sum(np.abs(self.getcoef()))
+        rl1 = np.sum(np.abs(self.xstep.wl1 * self.getcoef()))
         obj = dfd + self.xstep.lmbda*rl1
 
         return (obj, dfd, rl1)
diff --git a/sporco/dictlrn/wbpdndl.py b/sporco/dictlrn/wbpdndl.py
index 27b34e2..148780f 100644
--- a/sporco/dictlrn/wbpdndl.py
+++ b/sporco/dictlrn/wbpdndl.py
@@ -204,7 +204,7 @@ class WeightedBPDNDictLearn(dictlrn.DictLearn):
             X = self.xstep.var_x()
             S = self.xstep.S
             dfd = 0.5*np.linalg.norm(np.sqrt(self.W) * (D.dot(X) - S))**2
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1, ObjFun=dfd+self.xstep.lmbda*rl1)
         else:
             return None
-- 
2.43.0


From 4f21ea40d9607a2b352754679cb8f42fa34115ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:37 +0000
Subject: [PATCH 44/75] fix: update problem dimensions when the mini-batch size
 changes in OnlineConvBPDNDictLearn

---
 sporco/dictlrn/onlinecdl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index f17a802..096213c 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -245,9 +245,9 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
         """Initalise variables required for sparse coding and dictionary
         update for training data `S`."""
 
-        Nv = S.shape[0:self.dimN]
-        if self.cri is None or Nv != self.cri.Nv:
-            self.cri = CDU_ConvRepIndexing(self.dsz, S, dimK, self.dimN)
+        cri = CDU_ConvRepIndexing(self.dsz, S, dimK, self.dimN)
+        if self.cri is None or cri.shpX != self.cri.shpX:
+            self.cri = cri
             if self.opt['CUDA_CBPDN']:
                 if self.cri.Cd > 1 or self.cri.Cx > 1:
                     raise ValueError('CUDA CBPDN solver can only be used for '
-- 
2.43.0


From 24dce8a1799daeaae0d96137cfc46fd8ed3e40ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:38 +0000
Subject: [PATCH 45/75] fix: dictionary and coefficient layouts in
 OnlineConvBPDNDictLearn

---
 sporco/dictlrn/onlinecdl.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index 096213c..5717d90 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -278,7 +278,7 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
             self.xstep_itstat = None
         else:
             # Create X update object (external representation is expected!)
-            xstep = cbpdn.ConvBPDN(self.D.squeeze(), S, lmbda,
+            xstep = cbpdn.ConvBPDN(self._extdict(), S, lmbda,
                                    self.opt['CBPDN'], dimK=dimK,
                                    dimN=self.cri.dimN)
             xstep.solve()
@@ -288,20 +288,19 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
 
 
 
+    def _extdict(self):
+        """Get the current dictionary in the external representation
+        corresponding to the dictionary size specification."""
+
+        dimC = (self.cri.Cd,) if self.cri.dimCd > 0 else ()
+        return self.D.reshape(self.D.shape[0:self.dimN] + dimC +
+                              (self.cri.M,))
+
+
+
     def setcoef(self, Z):
         """Set coefficient array."""
 
-        # If the dictionary has a single channel but the input (and
-        # therefore also the coefficient map array) has multiple
-        # channels, the channel index and multiple image index have
-        # the same behaviour in the dictionary update equation: the
-        # simplest way to handle this is to just reshape so that the
-        # channels also appear on the multiple image index.
-        if self.cri.Cd == 1 and self.cri.C > 1:
-            Z = Z.reshape(self.cri.Nv + (1,) + (self.cri.Cx*self.cri.K,) +
-                          (self.cri.M,))
-            if Z.shape != self.Z.shape:
-                self.Z = empty_aligned(Z.shape, self.dtype)
         self.Z[:] = np.asarray(Z, dtype=self.dtype)
         self.Zf = rfftn(self.Z, self.cri.Nv, self.cri.axisN)
 
@@ -560,7 +559,7 @@ class OnlineConvBPDNMaskDictLearn(OnlineConvBPDNDictLearn):
             self.xstep_itstat = None
         else:
             # Create X update object (external representation is expected!)
-            xstep = cbpdn.ConvBPDNMaskDcpl(self.D.squeeze(), S, lmbda, W,
+            xstep = cbpdn.ConvBPDNMaskDcpl(self._extdict(), S, lmbda, W,
                                            self.opt['CBPDN'], dimK=dimK,
                                            dimN=self.cri.dimN)
             xstep.solve()
-- 
2.43.0


From ee4dbc8ee40a81c27063c05a2199425504439d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:38 +0000
Subject: [PATCH 46/75] fix: gradient for non-binary mask in
 OnlineConvBPDNMaskDictLearn

---
 sporco/dictlrn/onlinecdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index 5717d90..6c1228a 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -579,7 +579,7 @@ class OnlineConvBPDNMaskDictLearn(OnlineConvBPDNDictLearn):
         Ryf = inner(self.Zf, self.Df, axis=self.cri.axisM) - self.Sf
         # Transform to spatial domain, apply mask, and transform back to
         # frequency domain
-        Ryf[:] = rfftn(W * irfftn(Ryf, self.cri.Nv, self.cri.axisN),
+        Ryf[:] = rfftn(W**2 * irfftn(Ryf, self.cri.Nv, self.cri.axisN),
                           None, self.cri.axisN)
         # Compute gradient
         gradf = inner(np.conj(self.Zf), Ryf, axis=self.cri.axisK)
-- 
2.43.0


From eb8166ff2f04d5378fad36faad9e5ed7ba74b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:06 +0000
Subject: [PATCH 47/75] fix: gradient_filters for axes other than the leading
 ones

---
 sporco/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index 802b091..1282135 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -229,8 +229,8 @@ def gradient_filters(ndim, axes, axshp, dtype=None):
         dtype = np.float32
     g = np.zeros([2 if k in axes else 1 for k in range(ndim)] +
                  [len(axes),], dtype)
-    for k in axes:
-        g[(0,) * k + (slice(None),) + (0,) * (g.ndim - 2 - k) + (k,)] = \
+    for n, k in enumerate(axes):
+        g[(0,) * k + (slice(None),) + (0,) * (g.ndim - 2 - k) + (n,)] = \
             np.array([1, -1])
     if is_complex_dtype(dtype):
         Gf = fftn(g, axshp, axes=axes)
-- 
2.43.0


From 132d3e9649cd710e2007b20dac74c0850041abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:06 +0000
Subject: [PATCH 48/75] fix: adjoint of the TV denoising constraint for axes
 other than the leading ones

---
 sporco/admm/tvl1.py | 3 ++-
 sporco/admm/tvl2.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/tvl1.py b/sporco/admm/tvl1.py
index 5380f68..28c3127 100644
--- a/sporco/admm/tvl1.py
+++ b/sporco/admm/tvl1.py
@@ -333,7 +333,8 @@ class TVL1Denoise(admm.ADMM):
         """
 
         return np.sum(np.concatenate(
-            [gradT(X[..., ax], ax)[..., np.newaxis] for ax in self.axes] +
+            [gradT(X[..., k], ax)[..., np.newaxis]
+             for k, ax in enumerate(self.axes)] +
             [X[..., -1:],], axis=X.ndim-1), axis=X.ndim-1)
 
 
diff --git a/sporco/admm/tvl2.py b/sporco/admm/tvl2.py
index 348fb36..2fefc14 100644
--- a/sporco/admm/tvl2.py
+++ b/sporco/admm/tvl2.py
@@ -323,7 +323,8 @@ class TVL2Denoise(admm.ADMM):
         """
 
         return np.sum(np.concatenate(
-            [gradT(X[..., ax], ax)[..., np.newaxis] for ax in self.axes],
+            [gradT(X[..., k], ax)[..., np.newaxis]
+             for k, ax in enumerate(self.axes)],
             axis=X.ndim-1), axis=X.ndim-1)
 
 
-- 
2.43.0


From 6af2495164be79192d86f0612c92ffa52e8c5e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:06 +0000
Subject: [PATCH 49/75] fix: signal.grad and signal.gradT for negative or unit
 size axes

---
 sporco/signal.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index 1282135..403b1a6 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -162,7 +162,7 @@ def grad(x, axis, zero_pad=False):
     if zero_pad:
         xg = np.diff(x, axis=axis, prepend=0, append=0)
     else:
-        slc = (slice(None),)*axis + (slice(-1, None),)
+        slc = (slice(None),)*(axis % x.ndim) + (slice(-1, None),)
         xg = np.roll(x, -1, axis=axis) - x
         xg[slc] = 0.0
     return xg
@@ -193,10 +193,10 @@ def gradT(x, axis, zero_pad=False):
     if zero_pad:
         xg = -np.diff(x, axis=axis)
     else:
-        slc0 = (slice(None),) * axis
-        xg = np.roll(x, 1, axis=axis) - x
-        xg[slc0 + (slice(0, 1),)] = -x[slc0 + (slice(0, 1),)]
-        xg[slc0 + (slice(-1, None),)] = x[slc0 + (slice(-2, -1),)]
+        slc = (slice(None),)*(axis % x.ndim) + (slice(-1, None),)
+        xz = x.copy()
+        xz[slc] = 0.0
+        xg = np.roll(xz, 1, axis=axis) - xz
     return xg
 
 
-- 
2.43.0


From 9b52edde5031539ccfceae743586184a3588211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:06 +0000
Subject: [PATCH 50/75] fix: centre weight of TV denoising for axes of unit
 size

---
 sporco/admm/tvl1.py | 3 ++-
 sporco/admm/tvl2.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/tvl1.py b/sporco/admm/tvl1.py
index 28c3127..e326820 100644
--- a/sporco/admm/tvl1.py
+++ b/sporco/admm/tvl1.py
@@ -382,7 +382,8 @@ class TVL1Denoise(admm.ADMM):
             sz[ax] = self.S.shape[ax]
         lcw = 2*len(self.axes)*np.ones(sz, dtype=self.dtype)
         for ax in self.axes:
-            lcw[(slice(None),)*ax + ([0, -1],)] -= 1.0
+            lcw[(slice(None),)*ax + (0,)] -= 1.0
+            lcw[(slice(None),)*ax + (-1,)] -= 1.0
         return lcw
 
 
diff --git a/sporco/admm/tvl2.py b/sporco/admm/tvl2.py
index 2fefc14..91533b1 100644
--- a/sporco/admm/tvl2.py
+++ b/sporco/admm/tvl2.py
@@ -355,7 +355,8 @@ class TVL2Denoise(admm.ADMM):
             sz[ax] = self.S.shape[ax]
         lcw = 2*len(self.axes)*np.ones(sz, dtype=self.dtype)
         for ax in self.axes:
-            lcw[(slice(None),)*ax + ([0, -1],)] -= 1.0
+            lcw[(slice(None),)*ax + (0,)] -= 1.0
+            lcw[(slice(None),)*ax + (-1,)] -= 1.0
         return lcw
 
 
-- 
2.43.0


From e321fd8f3abd2a2020e0edfb3dc1a040721c2bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:06 +0000
Subject: [PATCH 51/75] fix: TV functional value for vector TV with TVWeight

---
 sporco/admm/tvl1.py | 10 ++++++----
 sporco/admm/tvl2.py |  6 ++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/sporco/admm/tvl1.py b/sporco/admm/tvl1.py
index e326820..b5b0191 100644
--- a/sporco/admm/tvl1.py
+++ b/sporco/admm/tvl1.py
@@ -300,8 +300,9 @@ class TVL1Denoise(admm.ADMM):
         else:
             gvr = np.abs(self.obfn_gvar())
         dfd = np.sum(np.abs(self.Wdf * gvr[..., -1]))
-        reg = np.sum(self.Wtv * np.sqrt(np.sum(gvr[..., 0:-1]**2,
-                                               axis=self.saxes)))
+        reg = np.sum(self.Wtvna * np.sqrt(np.sum(gvr[..., 0:-1]**2,
+                                                 axis=self.saxes,
+                                                 keepdims=True)))
         obj = dfd + self.lmbda*reg
         return (obj, dfd, reg)
 
@@ -686,8 +687,9 @@ class TVL1Deconv(admm.ADMM):
         else:
             gvr = np.abs(self.obfn_gvar())
         dfd = np.sum(self.Wdf * np.abs(gvr[..., -1]))
-        reg = np.sum(self.Wtv * np.sqrt(np.sum(gvr[..., 0:-1]**2,
-                                               axis=self.saxes)))
+        reg = np.sum(self.Wtvna * np.sqrt(np.sum(gvr[..., 0:-1]**2,
+                                                 axis=self.saxes,
+                                                 keepdims=True)))
         obj = dfd + self.lmbda*reg
         return (obj, dfd, reg)
 
diff --git a/sporco/admm/tvl2.py b/sporco/admm/tvl2.py
index 91533b1..1a58d18 100644
--- a/sporco/admm/tvl2.py
+++ b/sporco/admm/tvl2.py
@@ -291,7 +291,8 @@ class TVL2Denoise(admm.ADMM):
             gv = self.obfn_gvar()
         else:
             gv = np.abs(self.obfn_gvar())
-        reg = np.sum(self.Wtv * np.sqrt(np.sum(gv**2, axis=self.saxes)))
+        reg = np.sum(self.Wtvna * np.sqrt(np.sum(gv**2, axis=self.saxes,
+                                                 keepdims=True)))
         obj = dfd + self.lmbda*reg
         return (obj, dfd, reg)
 
@@ -648,7 +649,8 @@ class TVL2Deconv(admm.ADMM):
             gv = self.obfn_gvar()
         else:
             gv = np.abs(self.obfn_gvar())
-        reg = np.sum(self.Wtv * np.sqrt(np.sum(gv**2, axis=self.saxes)))
+        reg = np.sum(self.Wtvna * np.sqrt(np.sum(gv**2, axis=self.saxes,
+                                                 keepdims=True)))
         obj = dfd + self.lmbda*reg
         return (obj, dfd, reg)
 
-- 
2.43.0


From 13ecf772fad80e652d2c87535033a3a862f9cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:06 +0000
Subject: [PATCH 52/75] fix: dual variable initialisation of the TV solvers

---
 sporco/admm/tvl1.py | 50 ++++++++++++++++++++++++++-------------------
 sporco/admm/tvl2.py | 36 +++++++++++++++++---------------
 2 files changed, 49 insertions(+), 37 deletions(-)

diff --git a/sporco/admm/tvl1.py b/sporco/admm/tvl1.py
index b5b0191..a348a65 100644
--- a/sporco/admm/tvl1.py
+++ b/sporco/admm/tvl1.py
@@ -203,18 +203,19 @@ class TVL1Denoise(admm.ADMM):
                       dtype=real_dtype(self.dtype))
 
         yshape = S.shape + (len(axes)+1,)
-        super(TVL1Denoise, self).__init__(S.size, yshape, yshape, S.dtype, opt)
-
-        self.Wdf = np.asarray(self.opt['DFidWeight'],
+        self.Wdf = np.asarray(opt['DFidWeight'],
                               dtype=real_dtype(self.dtype))
-        self.lcw = self.LaplaceCentreWeight()
-        self.Wtv = np.asarray(self.opt['TVWeight'],
+        self.Wtv = np.asarray(opt['TVWeight'],
                               dtype=real_dtype(self.dtype))
         if hasattr(self.Wtv, 'ndim') and self.Wtv.ndim == S.ndim:
             self.Wtvna = self.Wtv[..., np.newaxis]
         else:
             self.Wtvna = self.Wtv
 
+        super(TVL1Denoise, self).__init__(S.size, yshape, yshape, S.dtype, opt)
+
+        self.lcw = self.LaplaceCentreWeight()
+
         # Need to initialise X because of Gauss-Seidel in xstep
         self.X = self.S
 
@@ -229,10 +230,13 @@ class TVL1Denoise(admm.ADMM):
             # If initial Y is non-zero, initial U is chosen so that
             # the relevant dual optimality criterion (see (3.10) in
             # boyd-2010-distributed) is satisfied.
-            Yss = np.sqrt(np.sum(self.Y[..., 0:-1]**2, axis=self.S.ndim,
-                                 keepdims=True))
-            U0 = (self.lmbda/self.rho)*zdivide(self.Y[..., 0:-1], Yss)
-            U1 = (1.0 / self.rho)*np.sign(self.Y[..., -1:])
+            Yss = np.sqrt(np.sum(np.abs(self.Y[..., 0:-1])**2,
+                                 axis=self.saxes, keepdims=True))
+            U0 = (self.lmbda/self.rho)*self.Wtvna*zdivide(
+                self.Y[..., 0:-1], Yss)
+            Yd = self.Y[..., -1:]
+            Wd = self.Wdf[..., np.newaxis] if self.Wdf.ndim else self.Wdf
+            U1 = (1.0/self.rho)*Wd*zdivide(Yd, np.abs(Yd))
             return np.concatenate((U0, U1), axis=self.S.ndim)
 
 
@@ -587,6 +591,15 @@ class TVL1Deconv(admm.ADMM):
 
         yshape = S.shape + (len(axes)+1,)
         self.S = np.asarray(S, dtype=self.dtype)
+        self.Wdf = np.asarray(opt['DFidWeight'],
+                              dtype=real_dtype(self.dtype))
+        self.Wtv = np.asarray(opt['TVWeight'],
+                              dtype=real_dtype(self.dtype))
+        if hasattr(self.Wtv, 'ndim') and self.Wtv.ndim == S.ndim:
+            self.Wtvna = self.Wtv[..., np.newaxis]
+        else:
+            self.Wtvna = self.Wtv
+
         super(TVL1Deconv, self).__init__(S.size, yshape, yshape, S.dtype, opt)
 
         self.axshp = tuple([S.shape[k] for k in axes])
@@ -596,14 +609,6 @@ class TVL1Deconv(admm.ADMM):
         self.AHAf = np.conj(self.Af)*self.Af
         self.AHSf = np.conj(self.Af)*self.Sf
 
-        self.Wdf = np.asarray(self.opt['DFidWeight'],
-                              dtype=real_dtype(self.dtype))
-        self.Wtv = np.asarray(self.opt['TVWeight'],
-                              dtype=real_dtype(self.dtype))
-        if hasattr(self.Wtv, 'ndim') and self.Wtv.ndim == S.ndim:
-            self.Wtvna = self.Wtv[..., np.newaxis]
-        else:
-            self.Wtvna = self.Wtv
 
         self.Gf, self.GHGf = gradient_filters(S.ndim, axes, self.axshp,
                                               dtype=self.dtype)
@@ -621,10 +626,13 @@ class TVL1Deconv(admm.ADMM):
             # If initial Y is non-zero, initial U is chosen so that
             # the relevant dual optimality criterion (see (3.10) in
             # boyd-2010-distributed) is satisfied.
-            Yss = np.sqrt(np.sum(self.Y[..., 0:-1]**2, axis=self.S.ndim,
-                                 keepdims=True))
-            U0 = (self.lmbda/self.rho)*zdivide(self.Y[..., 0:-1], Yss)
-            U1 = (1.0 / self.rho)*np.sign(self.Y[..., -1:])
+            Yss = np.sqrt(np.sum(np.abs(self.Y[..., 0:-1])**2,
+                                 axis=self.saxes, keepdims=True))
+            U0 = (self.lmbda/self.rho)*self.Wtvna*zdivide(
+                self.Y[..., 0:-1], Yss)
+            Yd = self.Y[..., -1:]
+            Wd = self.Wdf[..., np.newaxis] if self.Wdf.ndim else self.Wdf
+            U1 = (1.0/self.rho)*Wd*zdivide(Yd, np.abs(Yd))
             return np.concatenate((U0, U1), axis=self.S.ndim)
 
 
diff --git a/sporco/admm/tvl2.py b/sporco/admm/tvl2.py
index 1a58d18..5d887ab 100644
--- a/sporco/admm/tvl2.py
+++ b/sporco/admm/tvl2.py
@@ -203,18 +203,19 @@ class TVL2Denoise(admm.ADMM):
                       dtype=real_dtype(self.dtype))
 
         yshape = S.shape + (len(axes),)
-        super(TVL2Denoise, self).__init__(S.size, yshape, yshape, S.dtype, opt)
-
-        self.Wdf = np.asarray(self.opt['DFidWeight'], dtype=self.dtype)
-        self.Wdf2 = self.Wdf**2
-        self.lcw = self.LaplaceCentreWeight()
-        self.Wtv = np.asarray(self.opt['TVWeight'],
+        self.Wtv = np.asarray(opt['TVWeight'],
                               dtype=real_dtype(self.dtype))
         if hasattr(self.Wtv, 'ndim') and self.Wtv.ndim == S.ndim:
             self.Wtvna = self.Wtv[..., np.newaxis]
         else:
             self.Wtvna = self.Wtv
 
+        super(TVL2Denoise, self).__init__(S.size, yshape, yshape, S.dtype, opt)
+
+        self.Wdf = np.asarray(self.opt['DFidWeight'], dtype=self.dtype)
+        self.Wdf2 = self.Wdf**2
+        self.lcw = self.LaplaceCentreWeight()
+
         # Need to initialise X because of Gauss-Seidel in xstep
         self.X = self.S
 
@@ -229,8 +230,9 @@ class TVL2Denoise(admm.ADMM):
             # If initial Y is non-zero, initial U is chosen so that
             # the relevant dual optimality criterion (see (3.10) in
             # boyd-2010-distributed) is satisfied.
-            Yss = np.sqrt(np.sum(self.Y**2, axis=self.S.ndim, keepdims=True))
-            return (self.lmbda/self.rho)*zdivide(self.Y, Yss)
+            Yss = np.sqrt(np.sum(np.abs(self.Y)**2, axis=self.saxes,
+                                 keepdims=True))
+            return (self.lmbda/self.rho)*self.Wtvna*zdivide(self.Y, Yss)
 
 
 
@@ -558,6 +560,13 @@ class TVL2Deconv(admm.ADMM):
                       dtype=real_dtype(self.dtype))
 
         yshape = S.shape + (len(axes),)
+        self.Wtv = np.asarray(opt['TVWeight'],
+                              dtype=real_dtype(self.dtype))
+        if hasattr(self.Wtv, 'ndim') and self.Wtv.ndim == S.ndim:
+            self.Wtvna = self.Wtv[..., np.newaxis]
+        else:
+            self.Wtvna = self.Wtv
+
         super(TVL2Deconv, self).__init__(S.size, yshape, yshape, S.dtype, opt)
 
         self.axshp = tuple([S.shape[k] for k in axes])
@@ -567,12 +576,6 @@ class TVL2Deconv(admm.ADMM):
         self.AHAf = np.conj(self.Af)*self.Af
         self.AHSf = np.conj(self.Af)*self.Sf
 
-        self.Wtv = np.asarray(self.opt['TVWeight'],
-                              dtype=real_dtype(self.dtype))
-        if hasattr(self.Wtv, 'ndim') and self.Wtv.ndim == S.ndim:
-            self.Wtvna = self.Wtv[..., np.newaxis]
-        else:
-            self.Wtvna = self.Wtv
 
         # Construct gradient operators in frequency domain
         self.Gf, self.GHGf = gradient_filters(S.ndim, axes, self.axshp,
@@ -589,8 +592,9 @@ class TVL2Deconv(admm.ADMM):
             # If initial Y is non-zero, initial U is chosen so that
             # the relevant dual optimality criterion (see (3.10) in
             # boyd-2010-distributed) is satisfied.
-            Yss = np.sqrt(np.sum(self.Y**2, axis=self.S.ndim, keepdims=True))
-            return (self.lmbda/self.rho)*zdivide(self.Y, Yss)
+            Yss = np.sqrt(np.sum(np.abs(self.Y)**2, axis=self.saxes,
+                                 keepdims=True))
+            return (self.lmbda/self.rho)*self.Wtvna*zdivide(self.Y, Yss)
 
 
 
-- 
2.43.0


From 1f4a7e8448575d9b05e847d327bcb2895cbc09f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:06 +0000
Subject: [PATCH 53/75] fix: SplineL1 with initial value Y0

---
 sporco/admm/spline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/spline.py b/sporco/admm/spline.py
index 6eb2df5..fdd3ca5 100644
--- a/sporco/admm/spline.py
+++ b/sporco/admm/spline.py
@@ -154,11 +154,12 @@ class SplineL1(admm.ADMM):
         self.set_attr('rho', opt['rho'], dval=(2.0*self.lmbda + 0.1),
                       dtype=self.dtype)
 
+        self.Wdf = np.asarray(opt['DFidWeight'], dtype=self.dtype)
+
         Nx = S.size
         super(SplineL1, self).__init__(Nx, S.shape, S.shape, S.dtype, opt)
 
         self.S = np.asarray(S, dtype=self.dtype)
-        self.Wdf = np.asarray(self.opt['DFidWeight'], dtype=self.dtype)
 
         ashp = [1,] * S.ndim
         for ax in axes:
-- 
2.43.0


From e44a9eb4092200b33fb979dd53b278f34549443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:06 +0000
Subject: [PATCH 54/75] fix: sign of dual variable initialisation in RobustPCA

---
 sporco/admm/rpca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/rpca.py b/sporco/admm/rpca.py
index 47cc754..5abf718 100644
--- a/sporco/admm/rpca.py
+++ b/sporco/admm/rpca.py
@@ -155,7 +155,7 @@ class RobustPCA(admm.ADMM):
             # If initial Y is non-zero, initial U is chosen so that
             # the relevant dual optimality criterion (see (3.10) in
             # boyd-2010-distributed) is satisfied.
-            return (self.lmbda/self.rho)*np.sign(self.Y)
+            return -(self.lmbda/self.rho)*np.sign(self.Y)
 
 
 
-- 
2.43.0


From 39327fd36a2a86e8e05ca6030fb962d80d2581ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:16 +0000
Subject: [PATCH 55/75] fix: rgb2gray for image arrays and integer types

---
 sporco/signal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index 403b1a6..ae70f45 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -106,8 +106,9 @@ def rgb2gray(rgb):
       Grayscale image as Nr x Nc or Nr x Nc x K array
     """
 
-    w = np.array([0.299, 0.587, 0.114], dtype=rgb.dtype)[np.newaxis,
-                                                         np.newaxis]
+    dtype = rgb.dtype if np.issubdtype(rgb.dtype, np.inexact) else np.float64
+    w = np.array([0.299, 0.587, 0.114], dtype=dtype).reshape(
+        (1, 1, 3) + (1,) * (rgb.ndim - 3))
     return np.sum(w * rgb, axis=2)
 
 
-- 
2.43.0


From d26acc9e113fcab0aaf8089f2bc3d30acd3ec6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:16 +0000
Subject: [PATCH 56/75] fix: rndmask for integer types

---
 sporco/signal.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index ae70f45..352f534 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -85,10 +85,9 @@ def rndmask(shp, frc, dtype=None):
       Mask image
     """
 
-    msk = np.asarray(np.random.uniform(-1.0, 1.0, shp), dtype=dtype)
-    msk[np.abs(msk) > frc] = 1.0
-    msk[np.abs(msk) < frc] = 0.0
-    return msk
+    rnd = np.random.uniform(-1.0, 1.0, shp)
+    return np.asarray(np.abs(rnd) > frc,
+                      dtype=np.float64 if dtype is None else dtype)
 
 
 
-- 
2.43.0


From a7f57247bf1f689ecb64fbd233849a173dd5c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:16 +0000
Subject: [PATCH 57/75] fix: bsnr and psnr for integer images

---
 sporco/metric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/metric.py b/sporco/metric.py
index 3a3c36c..50ddf85 100644
--- a/sporco/metric.py
+++ b/sporco/metric.py
@@ -137,7 +137,7 @@ def psnr(vref, vcmp, rng=None):
     """
 
     if rng is None:
-        rng = np.abs(vref.max() - vref.min())
+        rng = np.abs((vref.max() + 0.0) - (vref.min() + 0.0))
     dv = (rng + 0.0)**2
     with np.errstate(divide='ignore'):
         rt = dv / mse(vref, vcmp)
@@ -192,7 +192,7 @@ def bsnr(vblr, vnsy):
     """
 
     blrvar = np.var(vblr)
-    nsevar = np.var(vnsy - vblr)
+    nsevar = np.var((vnsy + 0.0) - vblr)
     with np.errstate(divide='ignore'):
         rt = blrvar / nsevar
     return 10.0 * np.log10(rt)
-- 
2.43.0


From ecefc8e404dcc7e4d70d170b8c8efe517482515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:17 +0000
Subject: [PATCH 58/75] fix: bilinear_demosaic used cubic interpolation for red
 and blue

---
 sporco/interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/interp.py b/sporco/interp.py
index 0a1e58b..cb55170 100644
--- a/sporco/interp.py
+++ b/sporco/interp.py
@@ -54,7 +54,7 @@ def bilinear_demosaic(img):
     x = range(1, img.shape[0], 2)
     y = range(1, img.shape[1], 2)
     #fi = interp2d(x, y, img[1::2, 1::2])
-    fi = RectBivariateSpline(x, y, img[1::2, 1::2], s=0)
+    fi = RectBivariateSpline(x, y, img[1::2, 1::2], kx=1, ky=1, s=0)
     sr = fi(range(0, img.shape[0]), range(0, img.shape[1]))
 
     # Interpolate green channel. We can't use `interp2d` here because
@@ -83,7 +83,7 @@ def bilinear_demosaic(img):
     x = range(0, img.shape[0], 2)
     y = range(0, img.shape[1], 2)
     #fi = interp2d(x, y, img[0::2, 0::2])
-    fi = RectBivariateSpline(x, y, img[0::2, 0::2], s=0)
+    fi = RectBivariateSpline(x, y, img[0::2, 0::2], kx=1, ky=1, s=0)
     sb = fi(range(0, img.shape[0]), range(0, img.shape[1]))
 
     return np.dstack((sr, sg, sb))
-- 
2.43.0


From 44ce74e816a0c7697b55b131d864ab78cf909874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:00 +0000
Subject: [PATCH 59/75] fix: is_complex_dtype for type objects

---
 sporco/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/fft.py b/sporco/fft.py
index ab1ed28..930a8a1 100644
--- a/sporco/fft.py
+++ b/sporco/fft.py
@@ -55,7 +55,7 @@ def is_complex_dtype(dtype):
       True if the dtype is complex, otherwise False
     """
 
-    return dtype.kind == 'c'
+    return np.dtype(dtype).kind == 'c'
 
 
 
-- 
2.43.0


From ff234ed648f471e3965834d959fbb4687e35de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 60/75] fix: data type of function values in
 mpiutil.grid_search

---
 sporco/mpiutil.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sporco/mpiutil.py b/sporco/mpiutil.py
index 2e0c3e0..4692933 100644
--- a/sporco/mpiutil.py
+++ b/sporco/mpiutil.py
@@ -131,14 +131,17 @@ def grid_search(fn, grid, comm=None, mpidtype=None, fmin=True):
     iterlen = afprm.shape[0]
     begin, end = _get_rank_limits(comm, iterlen)
     rankgrid = (afprm[begin:end, :])
-    rankfval = np.asarray(list(map(fn, rankgrid)))
+    # The function values and the communication buffers must have the data
+    # type of the consolidation operations
+    dtype = np.dtype(MPI._typecode(mpidtype))
+    rankfval = np.asarray(list(map(fn, rankgrid)), dtype=dtype)
 
     if rankfval.ndim == 1:  # Function with a scalar return value
-        fval = np.empty(afprm.shape[0])
+        fval = np.empty(afprm.shape[0], dtype=dtype)
         comm.Allgatherv([rankfval, mpidtype], [fval, mpidtype])
     else:  # Function with a vector return value
         # Vector for gathering all the results
-        fval = np.empty([afprm.shape[0], rankfval.shape[1]])
+        fval = np.empty([afprm.shape[0], rankfval.shape[1]], dtype=dtype)
         # Size of values to collect locally
         sizeL = np.array(np.prod(np.array(rankfval.shape)))
         # Number of processes to collect from
-- 
2.43.0


From d83389365f8b2feed854291056f222ed7a9dff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 61/75] fix: mpiutil.grid_search with more processes than grid
 points

---
 sporco/mpiutil.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sporco/mpiutil.py b/sporco/mpiutil.py
index 4692933..07a8cf0 100644
--- a/sporco/mpiutil.py
+++ b/sporco/mpiutil.py
@@ -135,13 +135,18 @@ def grid_search(fn, grid, comm=None, mpidtype=None, fmin=True):
     # type of the consolidation operations
     dtype = np.dtype(MPI._typecode(mpidtype))
     rankfval = np.asarray(list(map(fn, rankgrid)), dtype=dtype)
+    # Number of dimensions of array of function values and number of
+    # values per grid point, which are unknown to a process to which no
+    # grid points are assigned
+    nd, nfv = comm.allreduce(sendobj=(rankfval.ndim, rankfval.size //
+                                      max(len(rankgrid), 1)), op=MPI.MAX)
 
-    if rankfval.ndim == 1:  # Function with a scalar return value
+    if nd == 1:  # Function with a scalar return value
         fval = np.empty(afprm.shape[0], dtype=dtype)
         comm.Allgatherv([rankfval, mpidtype], [fval, mpidtype])
     else:  # Function with a vector return value
         # Vector for gathering all the results
-        fval = np.empty([afprm.shape[0], rankfval.shape[1]], dtype=dtype)
+        fval = np.empty([afprm.shape[0], nfv], dtype=dtype)
         # Size of values to collect locally
         sizeL = np.array(np.prod(np.array(rankfval.shape)))
         # Number of processes to collect from
-- 
2.43.0


From 1d2c2d019dc04d86437075131c6a1d0a9400bfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 62/75] fix: grid_search for sample points that are not
 ndarrays

---
 sporco/mpiutil.py | 8 ++++----
 sporco/util.py    | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sporco/mpiutil.py b/sporco/mpiutil.py
index 07a8cf0..0cbdeee 100644
--- a/sporco/mpiutil.py
+++ b/sporco/mpiutil.py
@@ -169,15 +169,15 @@ def grid_search(fn, grid, comm=None, mpidtype=None, fmin=True):
 
     if isinstance(fval[0], (tuple, list, np.ndarray)):
         nfnv = len(fval[0])
-        fvmx = np.reshape(fval, [a.size for a in grid] + [nfnv,])
+        fvmx = np.reshape(fval, [np.size(a) for a in grid] + [nfnv,])
         sidx = np.unravel_index(slct(fvmx.reshape((-1, nfnv)), axis=0),
                                 fvmx.shape[0:-1]) + (np.array((range(nfnv))),)
-        sprm = np.array([grid[k][sidx[k]] for k in range(len(grid))])
+        sprm = np.array([np.asarray(grid[k])[sidx[k]] for k in range(len(grid))])
         sfvl = tuple(fvmx[sidx])
     else:
-        fvmx = np.reshape(fval, [a.size for a in grid])
+        fvmx = np.reshape(fval, [np.size(a) for a in grid])
         sidx = np.unravel_index(slct(fvmx), fvmx.shape)
-        sprm = np.array([grid[k][sidx[k]] for k in range(len(grid))])
+        sprm = np.array([np.asarray(grid[k])[sidx[k]] for k in range(len(grid))])
         sfvl = fvmx[sidx]
 
     return sprm, sfvl, fvmx, sidx
diff --git a/sporco/util.py b/sporco/util.py
index be39ecd..f282e62 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -153,15 +153,15 @@ def grid_search(fn, grd, fmin=True, nproc=None):
         pool.join()
     if isinstance(fval[0], (tuple, list, np.ndarray)):
         nfnv = len(fval[0])
-        fvmx = np.reshape(fval, [a.size for a in grd] + [nfnv,])
+        fvmx = np.reshape(fval, [np.size(a) for a in grd] + [nfnv,])
         sidx = np.unravel_index(slct(fvmx.reshape((-1, nfnv)), axis=0),
                                 fvmx.shape[0:-1]) + (np.array((range(nfnv))),)
-        sprm = np.array([grd[k][sidx[k]] for k in range(len(grd))])
+        sprm = np.array([np.asarray(grd[k])[sidx[k]] for k in range(len(grd))])
         sfvl = tuple(fvmx[sidx])
     else:
-        fvmx = np.reshape(fval, [a.size for a in grd])
+        fvmx = np.reshape(fval, [np.size(a) for a in grd])
         sidx = np.unravel_index(slct(fvmx), fvmx.shape)
-        sprm = np.array([grd[k][sidx[k]] for k in range(len(grd))])
+        sprm = np.array([np.asarray(grd[k])[sidx[k]] for k in range(len(grd))])
         sfvl = fvmx[sidx]
 
     return sprm, sfvl, fvmx, sidx
-- 
2.43.0


From 5d43933d7fc3c341f741293a83f3dfc69ce63b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 63/75] fix: ExampleImages with a path that ends in a separator

---
 sporco/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/util.py b/sporco/util.py
index f282e62..cf887fc 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -424,9 +424,9 @@ class ExampleImages(object):
         self.imglst = []
         self.grpimg = {}
         for dirpath, dirnames, filenames in os.walk(self.bpth):
-            # It would be more robust and portable to use
-            # pathlib.PurePath.relative_to
-            prnpth = dirpath[len(self.bpth)+1:]
+            prnpth = os.path.relpath(dirpath, self.bpth)
+            if prnpth == os.curdir:
+                prnpth = ''
             for f in filenames:
                 fpth = os.path.join(dirpath, f)
                 if is_image(fpth):
-- 
2.43.0


From 812e450b8b340d381a340ce3e6722b6b8d95a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 64/75] fix: ExampleImages.image gray option for images that
 are not RGB

---
 sporco/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/util.py b/sporco/util.py
index cf887fc..cc725c0 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -564,7 +564,7 @@ class ExampleImages(object):
                 img = sn.zoom(img, zoom)
             else:
                 img = sn.zoom(img, (zoom,)*2 + (1,)*(img.ndim-2))
-        if gray:
+        if gray and img.ndim > 2:
             img = signal.rgb2gray(img)
 
         return img
-- 
2.43.0


From 31e6dfcc20dbe5b8dce9c7ab238e2af42ff7f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:41 +0000
Subject: [PATCH 65/75] fix: PGM solvers sharing an options object share the
 state of the step size policy

---
 sporco/pgm/pgm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index e37909f..1d9835a 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -243,7 +243,8 @@ class PGM(IterativeSolver):
 
         # Configure policy for step size
         # Step size policy is turned off if Backtrack is enabled
-        self.stepsizepolicy = self.opt['StepSizePolicy']
+        # Copied since the policy object may hold solver state
+        self.stepsizepolicy = copy.deepcopy(self.opt['StepSizePolicy'])
         if self.opt['Backtrack'] is not None:
             self.stepsizepolicy = None
 
-- 
2.43.0


From fc4bcda3055b49e8817af8ae9e1829287dd6a81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 66/75] fix: zdivide with integer, complex denominator and
 broadcast arguments

---
 sporco/array.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/sporco/array.py b/sporco/array.py
index 6d1c662..510ed1a 100644
--- a/sporco/array.py
+++ b/sporco/array.py
@@ -116,6 +116,26 @@ def zpad(x, pd, ax):
 
 
 
+def promote_float(x):
+    """Promote an integer (or boolean) array to a floating point array.
+
+    Parameters
+    ----------
+    x : array_like
+      Array to be promoted if it has an integer or boolean dtype
+
+    Returns
+    -------
+    xf : ndarray
+      Input array, converted to ``np.float64`` dtype if its dtype is
+      neither a floating point nor a complex one
+    """
+
+    x = np.asarray(x)
+    return x if x.dtype.kind in 'fc' else np.asarray(x, dtype=np.float64)
+
+
+
 def zdivide(x, y):
     """Return `x`/`y`, with 0 instead of NaN where `y` is 0.
 
@@ -132,8 +152,11 @@ def zdivide(x, y):
       Quotient `x`/`y`
     """
 
+    x = promote_float(x)
+    y = np.asarray(y)
     # See https://stackoverflow.com/a/37977222
-    return np.divide(x, y, out=np.zeros_like(x), where=(y != 0))
+    z = np.zeros(np.broadcast(x, y).shape, dtype=np.result_type(x, y))
+    return np.divide(x, y, out=z, where=(y != 0))
 
 
 
-- 
2.43.0


From 99d185c4fd92189ac05f91c57cdd8a51c72c4f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 67/75] fix: average_blocks of integer blocks

---
 sporco/array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sporco/array.py b/sporco/array.py
index 510ed1a..f8a70d0 100644
--- a/sporco/array.py
+++ b/sporco/array.py
@@ -433,7 +433,9 @@ def average_blocks(blks, imgsz, stpsz=None):
                       zip_longest(imgsz, blksz, stpsz, fillvalue=1))
 
     new_shape = blksz + numblocks
-    blks = np.reshape(blks, new_shape)
+    # Integer types are promoted since sums of overlapping blocks may not
+    # be representable, and averages are in general not integers
+    blks = np.reshape(promote_float(blks), new_shape)
 
     # Construct an imgs matrix of empty lists
     imgs = np.zeros(imgsz, dtype=blks.dtype)
-- 
2.43.0


From 58419b14c0ee8796abbc9bb2c571193489990ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 68/75] fix: l2 norm, proximal operator and projection of
 integer arrays

---
 sporco/cupy/__init__.py | 3 ++-
 sporco/prox/_lp.py      | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sporco/cupy/__init__.py b/sporco/cupy/__init__.py
index 50fb271..2f91403 100644
--- a/sporco/cupy/__init__.py
+++ b/sporco/cupy/__init__.py
@@ -415,7 +415,8 @@ util = sporco_cupy_patch_module('sporco.util', {'signal': signal})
 
 # Construct sporco.cupy.prox
 prox_lp = sporco_cupy_patch_module('sporco.prox._lp',
-            {'have_numexpr': False, 'zdivide': _zdivide})
+            {'have_numexpr': False, 'zdivide': _zdivide,
+             'promote_float': array.promote_float})
 prox_util = sporco_cupy_patch_module('sporco.prox._util')
 prox_l1proj = sporco_cupy_patch_module('sporco.prox._l1proj')
 prox_nuclear = sporco_cupy_patch_module('sporco.prox._nuclear',
diff --git a/sporco/prox/_lp.py b/sporco/prox/_lp.py
index 358aad4..92ef254 100644
--- a/sporco/prox/_lp.py
+++ b/sporco/prox/_lp.py
@@ -19,7 +19,7 @@ except ImportError:
 else:
     have_numexpr = True
 
-from sporco.array import zdivide
+from sporco.array import promote_float, zdivide
 
 
 __author__ = """Brendt Wohlberg <brendt@ieee.org>"""
@@ -210,6 +210,7 @@ def norm_2l2(x, axis=None):
       as a vector
     """
 
+    x = promote_float(x)
     if np.isrealobj(x):
         nl2 = np.sum(x**2, axis=axis, keepdims=True)
     else:
@@ -282,6 +283,7 @@ def prox_l2(v, alpha, axis=None):
       Output array
     """
 
+    v = promote_float(v)
     if np.isrealobj(v):
         a = np.sqrt(np.sum(v**2, axis=axis, keepdims=True))
     else:
@@ -332,6 +334,7 @@ def proj_l2(v, gamma, axis=None):
       Output array
     """
 
+    v = promote_float(v)
     if np.isrealobj(v):
         d = np.sqrt(np.sum(v**2, axis=axis, keepdims=True))
     else:
-- 
2.43.0


From 5279f2b44476523c7d7d124bf70847891d1a1c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 69/75] fix: normalisation and mean removal of integer
 dictionaries

---
 sporco/cnvrep.py        | 5 ++++-
 sporco/cupy/__init__.py | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sporco/cnvrep.py b/sporco/cnvrep.py
index dd797a9..1f0a010 100644
--- a/sporco/cnvrep.py
+++ b/sporco/cnvrep.py
@@ -16,6 +16,8 @@ import pprint
 import functools
 import numpy as np
 
+from sporco.array import promote_float
+
 
 __author__ = """Brendt Wohlberg <brendt@ieee.org>"""
 
@@ -631,7 +633,7 @@ def zeromean(v, dsz, dimN=2):
       Dictionary array with filter means subtracted
     """
 
-    vz = v.copy()
+    vz = promote_float(v).copy()
     if isinstance(dsz[0], tuple):
         # Multi-scale dictionary specification
         axisN = tuple(range(0, dimN))
@@ -693,6 +695,7 @@ def normalise(v, dimN=2):
     """
 
     axisN = tuple(range(0, dimN))
+    v = promote_float(v)
     if np.isrealobj(v):
         vn = np.sqrt(np.sum(v**2, axisN, keepdims=True))
     else:
diff --git a/sporco/cupy/__init__.py b/sporco/cupy/__init__.py
index 2f91403..5c39350 100644
--- a/sporco/cupy/__init__.py
+++ b/sporco/cupy/__init__.py
@@ -221,7 +221,8 @@ array = sporco_cupy_patch_module('sporco.array',
 
 
 # Construct sporco.cupy.cnvrep
-cnvrep = sporco_cupy_patch_module('sporco.cnvrep')
+cnvrep = sporco_cupy_patch_module('sporco.cnvrep',
+            {'promote_float': array.promote_float})
 
 
 # Construct sporco.cupy.common
-- 
2.43.0


From 1529395b9b510799b35c045e00dc09b448897c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 70/75] fix: gradient operators applied to integer arrays

---
 sporco/cupy/__init__.py | 3 ++-
 sporco/signal.py        | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/sporco/cupy/__init__.py b/sporco/cupy/__init__.py
index 5c39350..852e8c3 100644
--- a/sporco/cupy/__init__.py
+++ b/sporco/cupy/__init__.py
@@ -407,7 +407,8 @@ metric = sporco_cupy_patch_module('sporco.metric')
 signal = sporco_cupy_patch_module('sporco.signal',
             {'fftn': fft.fftn, 'ifftn': fft.ifftn,
              'rfftn': fft.rfftn, 'irfftn': fft.irfftn,
-             'fftconv': fft.fftconv})
+             'fftconv': fft.fftconv,
+             'promote_float': array.promote_float})
 
 
 # Construct sporco.cupy.util
diff --git a/sporco/signal.py b/sporco/signal.py
index 352f534..b6631be 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -14,6 +14,7 @@ import numpy as np
 
 from sporco.fft import is_complex_dtype, fftn, ifftn, rfftn, irfftn, fftconv
 from sporco import array
+from sporco.array import promote_float
 
 
 __author__ = """Brendt Wohlberg <brendt@ieee.org>"""
@@ -159,6 +160,8 @@ def grad(x, axis, zero_pad=False):
       Output array
     """
 
+    # Differences of unsigned or narrow integers may not be representable
+    x = promote_float(x)
     if zero_pad:
         xg = np.diff(x, axis=axis, prepend=0, append=0)
     else:
@@ -190,6 +193,8 @@ def gradT(x, axis, zero_pad=False):
       Output array
     """
 
+    # Differences of unsigned or narrow integers may not be representable
+    x = promote_float(x)
     if zero_pad:
         xg = -np.diff(x, axis=axis)
     else:
-- 
2.43.0


From c43039b38164f65c6a035f89091a6cec459a8e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 71/75] fix: tikhonov_filter applied to integer images

---
 sporco/signal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sporco/signal.py b/sporco/signal.py
index b6631be..e6a5298 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -283,6 +283,8 @@ def tikhonov_filter(s, lmbda, npd=16):
       Highpass image or array of images.
     """
 
+    # The components of an integer image are in general not integers
+    s = promote_float(s)
     if np.isrealobj(s):
         fft = rfftn
         ifft = irfftn
-- 
2.43.0


From 44e4fe8c29f8f6a2ebdb1201919be65d6cdeaecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 72/75] fix: solvers applied to integer signals

---
 sporco/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sporco/common.py b/sporco/common.py
index f57723f..503b16a 100644
--- a/sporco/common.py
+++ b/sporco/common.py
@@ -169,6 +169,10 @@ class IterativeSolver(with_metaclass(_IterSolver_Meta, object)):
                 # but explicitly convert it in case it was incorrectly
                 # specified as an instance of type
                 self.dtype = np.dtype(dtype)
+                # The working variables of an algorithm are in general not
+                # representable in the integer type of an input array
+                if self.dtype.kind not in 'fc':
+                    self.dtype = np.dtype(np.float64)
             else:
                 self.dtype = np.dtype(opt['DataType'])
 
-- 
2.43.0


From d72c6fc7ac02755d96295424ee4bcf39c9980f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 73/75] fix: normalisation of the columns of integer
 dictionaries

---
 sporco/admm/cmod.py | 2 ++
 sporco/pgm/cmod.py  | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/cmod.py b/sporco/admm/cmod.py
index 7c35907..642ca19 100644
--- a/sporco/admm/cmod.py
+++ b/sporco/admm/cmod.py
@@ -14,6 +14,7 @@ import numpy as np
 
 from sporco.admm import admm
 import sporco.linalg as sl
+from sporco.array import promote_float
 
 __author__ = """Brendt Wohlberg <brendt@ieee.org>"""
 
@@ -337,6 +338,7 @@ def normalise(v):
       Normalised array
     """
 
+    v = promote_float(v)
     vn = np.sqrt(np.sum(v**2, 0))
     vn[vn == 0] = 1.0
     return np.asarray(v / vn, dtype=v.dtype)
diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index 2178d73..d4c9207 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -13,7 +13,7 @@ from __future__ import division, absolute_import, print_function
 import copy
 import numpy as np
 
-from sporco.array import atleast_nd
+from sporco.array import atleast_nd, promote_float
 from sporco.pgm import pgm
 
 
@@ -409,6 +409,7 @@ def normalise(v):
       Normalised array
     """
 
+    v = promote_float(v)
     vn = np.sqrt(np.sum(v**2, 0))
     vn[vn == 0] = 1.0
     return np.asarray(v / vn, dtype=v.dtype)
-- 
2.43.0


From 80d78259f9c5de6746d2b3fa3c9cdaf1cf535c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:10 +0000
Subject: [PATCH 74/75] fix: l2,1 term of the functional of ConvBPDNJoint for
 complex signals

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index d483bf5..61abe95 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -806,7 +806,7 @@ class ConvBPDNJoint(ConvBPDN):
         """
 
         rl1 = np.linalg.norm((self.wl1 * self.obfn_gvar()).ravel(), 1)
-        rl21 = np.sum(self.wl21 * np.sqrt(np.sum(self.obfn_gvar()**2,
+        rl21 = np.sum(self.wl21 * np.sqrt(np.sum(np.abs(self.obfn_gvar())**2,
                                                  axis=self.cri.axisC,
                                                  keepdims=True)))
         return (self.lmbda*rl1 + self.mu*rl21, rl1, rl21)
-- 
2.43.0


From d18509eed7724e609f963d06091e1f74240ef6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:10 +0000
Subject: [PATCH 75/75] fix: reconstruction and accurate functional values of
 dictionary learning for complex signals

---
 sporco/dictlrn/cbpdndl.py   | 18 ++++++++++--------
 sporco/dictlrn/cbpdndlmd.py |  9 +++++----
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/sporco/dictlrn/cbpdndl.py b/sporco/dictlrn/cbpdndl.py
index 421bf77..260f4d4 100644
--- a/sporco/dictlrn/cbpdndl.py
+++ b/sporco/dictlrn/cbpdndl.py
@@ -21,7 +21,7 @@ from sporco.dictlrn import dictlrn
 import sporco.dictlrn.common as dc
 from sporco.common import _fix_dynamic_class_lookup
 from sporco.linalg import inner
-from sporco.fft import (rfftn, irfftn, rfl2norm2)
+from sporco.fft import (fftn_func, ifftn_func, fl2norm2_func)
 
 
 __author__ = """Brendt Wohlberg <brendt@ieee.org>"""
@@ -492,10 +492,11 @@ class ConvBPDNDictLearn(dictlrn.DictLearn):
             D = self.getdict(crop=False)
         if X is None:
             X = self.getcoef()
-        Df = rfftn(D, self.xstep.cri.Nv, self.xstep.cri.axisN)
-        Xf = rfftn(X, self.xstep.cri.Nv, self.xstep.cri.axisN)
+        rd = np.isrealobj(D) and np.isrealobj(X)
+        Df = fftn_func(rd)(D, self.xstep.cri.Nv, self.xstep.cri.axisN)
+        Xf = fftn_func(rd)(X, self.xstep.cri.Nv, self.xstep.cri.axisN)
         DXf = inner(Df, Xf, axis=self.xstep.cri.axisM)
-        return irfftn(DXf, self.xstep.cri.Nv, self.xstep.cri.axisN)
+        return ifftn_func(rd)(DXf, self.xstep.cri.Nv, self.xstep.cri.axisN)
 
 
 
@@ -511,12 +512,13 @@ class ConvBPDNDictLearn(dictlrn.DictLearn):
                 X = self.xstep.getcoef()
             else:
                 X = self.xstep.var_y()
-            Df = rfftn(D, self.xstep.cri.Nv, self.xstep.cri.axisN)
-            Xf = rfftn(X, self.xstep.cri.Nv, self.xstep.cri.axisN)
+            rd = np.isrealobj(D) and np.isrealobj(X)
+            Df = fftn_func(rd)(D, self.xstep.cri.Nv, self.xstep.cri.axisN)
+            Xf = fftn_func(rd)(X, self.xstep.cri.Nv, self.xstep.cri.axisN)
             Sf = self.xstep.Sf
             Ef = inner(Df, Xf, axis=self.xstep.cri.axisM) - Sf
-            dfd = rfl2norm2(Ef, self.xstep.S.shape,
-                            axis=self.xstep.cri.axisN) / 2.0
+            dfd = fl2norm2_func(rd)(Ef, self.xstep.S.shape,
+                                    axis=self.xstep.cri.axisN) / 2.0
             rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1,
                         ObjFun=dfd + self.xstep.lmbda * rl1)
diff --git a/sporco/dictlrn/cbpdndlmd.py b/sporco/dictlrn/cbpdndlmd.py
index 4832f87..3904ef4 100644
--- a/sporco/dictlrn/cbpdndlmd.py
+++ b/sporco/dictlrn/cbpdndlmd.py
@@ -22,7 +22,7 @@ import sporco.pgm.ccmod as pgm_ccmod
 from sporco.dictlrn import dictlrn
 import sporco.dictlrn.common as dc
 from sporco.common import _fix_dynamic_class_lookup
-from sporco.fft import rfftn, irfftn
+from sporco.fft import fftn_func, ifftn_func
 from sporco.linalg import inner
 
 
@@ -515,10 +515,11 @@ class ConvBPDNMaskDictLearn(dictlrn.DictLearn):
             D = self.getdict(crop=False)
         if X is None:
             X = self.getcoef()
-        Df = rfftn(D, self.xstep.cri.Nv, self.xstep.cri.axisN)
-        Xf = rfftn(X, self.xstep.cri.Nv, self.xstep.cri.axisN)
+        rd = np.isrealobj(D) and np.isrealobj(X)
+        Df = fftn_func(rd)(D, self.xstep.cri.Nv, self.xstep.cri.axisN)
+        Xf = fftn_func(rd)(X, self.xstep.cri.Nv, self.xstep.cri.axisN)
         DXf = inner(Df, Xf, axis=self.xstep.cri.axisM)
-        return irfftn(DXf, self.xstep.cri.Nv, self.xstep.cri.axisN)
+        return ifftn_func(rd)(DXf, self.xstep.cri.Nv, self.xstep.cri.axisN)
 
 
 
-- 
2.43.0

