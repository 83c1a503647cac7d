From fd3660d381e583dfe604b8c2798186f4b5f884cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:19 +0000
Subject: [PATCH 01/54] fix: set lmbda and rho before ConvBPDN base
 initialisation

The initialisation of U with a non-default Y0, and of the cached x step
linear solver component with HighMemSolve, use values that were only set
after the base class initialiser.
---
 sporco/admm/cbpdn.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 7b08026..8e8ca9f 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -566,14 +566,12 @@ class ConvBPDN(GenericConvBPDN):
         # Set dtype attribute based on S.dtype and opt['DataType']
         self.set_dtype(opt, S.dtype)
 
-        # Call parent class __init__
-        super(ConvBPDN, self).__init__(D, S, opt, dimK, dimN)
-
         # Set default lambda value if not specified
         if lmbda is None:
             cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
-            Df = self.fftn(D.reshape(cri.shpD), cri.Nv, axes=cri.axisN)
-            Sf = self.fftn(S.reshape(cri.shpS), axes=cri.axisN)
+            fftn = fftn_func(np.isrealobj(D) and np.isrealobj(S))
+            Df = fftn(D.reshape(cri.shpD), cri.Nv, axes=cri.axisN)
+            Sf = fftn(S.reshape(cri.shpS), axes=cri.axisN)
             b = np.conj(Df) * Sf
             lmbda = 0.1 * abs(b).max()
 
@@ -592,6 +590,10 @@ class ConvBPDN(GenericConvBPDN):
         self.set_attr('rho_xi', opt['AutoRho', 'RsdlTarget'], dval=rho_xi,
                       dtype=real_dtype(self.dtype), reset=True)
 
+        # Call parent class __init__ (lmbda and rho are required by the
+        # initialisation of U and of the x step linear solver)
+        super(ConvBPDN, self).__init__(D, S, opt, dimK, dimN)
+
         # Set l1 term weight array
         self.wl1 = np.asarray(opt['L1Weight'], dtype=real_dtype(self.dtype))
         self.wl1 = self.wl1.reshape(cr.l1Wshape(self.wl1, self.cri))
-- 
2.43.0


From fe7cddd7ffd8f01ba98be8279790c0b65f75faa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:46 +0000
Subject: [PATCH 02/54] fix: set attributes used by ConvBPDNMaskDcpl.uinit
 before they are needed

---
 sporco/admm/cbpdn.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 8e8ca9f..8292ddd 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2211,13 +2211,18 @@ class ConvBPDNMaskDcpl(ConvTwoBlockCnstrnt):
         if opt is None:
             opt = ConvBPDNMaskDcpl.Options()
 
-        super(ConvBPDNMaskDcpl, self).__init__(D, S, opt, dimK=dimK, dimN=dimN)
-
+        # Set attributes required by method uinit, which is called by
+        # the parent class __init__
+        self.set_dtype(opt, S.dtype)
         self.lmbda = self.dtype.type(lmbda)
         if W is None:
             W = np.array([1.0], dtype=self.dtype)
-        self.W = np.asarray(W.reshape(cr.mskWshape(W, self.cri)),
+        cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
+        self.W = np.asarray(W.reshape(cr.mskWshape(W, cri)),
                             dtype=self.dtype)
+
+        super(ConvBPDNMaskDcpl, self).__init__(D, S, opt, dimK=dimK, dimN=dimN)
+
         self.wl1 = np.asarray(opt['L1Weight'], dtype=self.dtype)
         self.wl1 = self.wl1.reshape(cr.l1Wshape(self.wl1, self.cri))
 
-- 
2.43.0


From 57fd7a473ab688ed3a78d1bd26f09986eec14967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:46 +0000
Subject: [PATCH 03/54] fix: ConvMinL1InL2Ball.uinit uses undefined function
 and swapped blocks

---
 sporco/admm/cbpdn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 8292ddd..5369dfc 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2011,9 +2011,8 @@ class ConvMinL1InL2Ball(ConvTwoBlockCnstrnt):
             # If initial Y is non-zero, initial U is chosen so that
             # the relevant dual optimality criterion (see (3.10) in
             # boyd-2010-distributed) is satisfied.
-            U0 = np.sign(self.block_sep0(self.Y)) / self.rho
-            U1 = self.block_sep1(self.Y) - sl.atleast_nd(self.cri.dimN+3,
-                                                         self.S)
+            U0 = self.block_sep0(self.Y)
+            U1 = np.sign(self.block_sep1(self.Y)) / self.rho
             return self.block_cat(U0, U1)
 
 
-- 
2.43.0


From f343bf06b89ac73792a43461253773a1d8f2ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:10 +0000
Subject: [PATCH 04/54] fix: AddMaskSim.setdict calls undefined function

---
 sporco/admm/cbpdn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 5369dfc..1a9ca89 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2434,8 +2434,10 @@ class AddMaskSim(object):
     def setdict(self, D=None):
         """Set dictionary array."""
 
-        Di = np.concatenate((D, sl.atleast_nd(D.ndim, self.imp)),
-                            axis=D.ndim-1)
+        shpi = (1,)*(D.ndim - self.imp.ndim)
+        imp = self.imp.reshape(self.imp.shape[0:-1] + shpi +
+                               self.imp.shape[-1:])
+        Di = np.concatenate((D, imp), axis=D.ndim-1)
         self.cbpdn.setdict(Di)
 
 
-- 
2.43.0


From ad927b82110b49bac02aa2040ff7089c3f846c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:10 +0000
Subject: [PATCH 05/54] fix: MultiDictConvBPDN.reconstruct calls undefined
 function

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 1a9ca89..4642be6 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2906,7 +2906,7 @@ class MultiDictConvBPDN(object):
 
         if X is None:
             X = self.getcoef()
-        Xf = rfftn(X, None, self.cbpdn.cri.axisN)
+        Xf = self.cbpdn.fftn(X, None, self.cbpdn.cri.axisN)
         slc = (slice(None),)*self.dimN + \
               (slice(self.chncs[b], self.chncs[b+1]),)
         Sf = np.sum(self.cbpdn.Df[slc] * Xf, axis=self.cbpdn.cri.axisM)
-- 
2.43.0


From ff587cd3242b5f44f5ca5bfcaa50303c45f76510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:10 +0000
Subject: [PATCH 06/54] fix: set S before it is used by MinL1InL2Ball.uinit

---
 sporco/admm/bpdn.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/bpdn.py b/sporco/admm/bpdn.py
index 459ee9d..547c150 100644
--- a/sporco/admm/bpdn.py
+++ b/sporco/admm/bpdn.py
@@ -1061,6 +1061,12 @@ class MinL1InL2Ball(admm.ADMMTwoBlockCnstrnt):
         Nm = S.shape[1]
         if opt is None:
             opt = MinL1InL2Ball.Options()
+
+        # Set dtype attribute based on S.dtype and opt['DataType'], and
+        # signal array, which is required by method uinit
+        self.set_dtype(opt, S.dtype)
+        self.S = np.asarray(S, dtype=self.dtype)
+
         super(MinL1InL2Ball, self).__init__(Nc * Nm, (Nc + Nr, Nm), 0, Nc,
                                             S.dtype, opt)
 
@@ -1068,7 +1074,6 @@ class MinL1InL2Ball(admm.ADMMTwoBlockCnstrnt):
         self.epsilon = self.dtype.type(epsilon)
         self.wl1 = np.asarray(opt['L1Weight'], dtype=self.dtype)
 
-        self.S = np.asarray(S, dtype=self.dtype)
         self.setdict(D)
 
 
-- 
2.43.0


From f37bcda63ddd82e047d73378200ad1f0d786fed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:10 +0000
Subject: [PATCH 07/54] fix: set Wdf before it is used by SplineL1.uinit

---
 sporco/admm/spline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/spline.py b/sporco/admm/spline.py
index 6eb2df5..8ca20de 100644
--- a/sporco/admm/spline.py
+++ b/sporco/admm/spline.py
@@ -154,11 +154,13 @@ class SplineL1(admm.ADMM):
         self.set_attr('rho', opt['rho'], dval=(2.0*self.lmbda + 0.1),
                       dtype=self.dtype)
 
+        # Data fidelity weight, which is required by method uinit
+        self.Wdf = np.asarray(opt['DFidWeight'], dtype=self.dtype)
+
         Nx = S.size
         super(SplineL1, self).__init__(Nx, S.shape, S.shape, S.dtype, opt)
 
         self.S = np.asarray(S, dtype=self.dtype)
-        self.Wdf = np.asarray(self.opt['DFidWeight'], dtype=self.dtype)
 
         ashp = [1,] * S.ndim
         for ax in axes:
-- 
2.43.0


From abb2d7ce90d2f7f079cb12864f1b6dc7957c366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:10 +0000
Subject: [PATCH 08/54] fix: pgm CnstrMOD.reconstruct uses an undefined
 attribute

---
 sporco/pgm/cmod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index db89512..c6f9894 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -229,7 +229,7 @@ class CnstrMOD(pgm.PGM):
 
         if X is None:
             X = self.X
-        return self.D.dot(self.X)
+        return X.dot(self.Z)
 
 
 
-- 
2.43.0


From a80bb74f0b771fcfb0296aa2903ad97d22e4acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:14 +0000
Subject: [PATCH 09/54] fix: pgm BPDN.reconstruct ignores its argument

---
 sporco/pgm/bpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/pgm/bpdn.py b/sporco/pgm/bpdn.py
index 7b5f8e4..08844f6 100644
--- a/sporco/pgm/bpdn.py
+++ b/sporco/pgm/bpdn.py
@@ -239,7 +239,7 @@ class BPDN(pgm.PGM):
 
         if X is None:
             X = self.X
-        return self.D.dot(self.X)
+        return self.D.dot(X)
 
 
 
-- 
2.43.0


From 79dd7971a5558c22c55cb9fd3d52abcd8a9e8782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:14 +0000
Subject: [PATCH 10/54] fix: ConvElasticNet and ConvBPDNGradReg cache wrong
 solver component when rho changes

---
 sporco/admm/cbpdn.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 4642be6..822578d 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -978,6 +978,15 @@ class ConvElasticNet(ConvBPDN):
 
 
 
+    def rhochange(self):
+        """Updated cached c array when rho changes."""
+
+        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+            self.c = sl.solvedbi_sm_c(self.Df, np.conj(self.Df),
+                                      self.mu + self.rho, self.cri.axisM)
+
+
+
     def obfn_reg(self):
         """Compute regularisation term and contribution to objective
         function.
@@ -1204,6 +1213,16 @@ class ConvBPDNGradReg(ConvBPDN):
 
 
 
+    def rhochange(self):
+        """Updated cached c array when rho changes."""
+
+        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+            self.c = sl.solvedbd_sm_c(
+                self.Df, np.conj(self.Df),
+                self.mu * self.GHGf + self.rho, self.cri.axisM)
+
+
+
     def obfn_reg(self):
         """Compute regularisation term and contribution to objective
         function.
-- 
2.43.0


From 8861bfe9d65ad87019f54c8b657822ba199297c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:14 +0000
Subject: [PATCH 11/54] fix: set attributes used by ConvL1L1Grd.setdict before
 they are needed

---
 sporco/admm/cbpdn.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 822578d..5756b88 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2669,9 +2669,10 @@ class ConvL1L1Grd(ConvBPDNMaskDcpl):
         if opt is None:
             opt = ConvL1L1Grd.Options()
 
-        super(ConvL1L1Grd, self).__init__(D, S, lmbda, W, opt, dimK=dimK,
-                                          dimN=dimN)
-
+        # Set attributes required by method setdict, which is called by
+        # the parent class __init__
+        self.set_dtype(opt, S.dtype)
+        cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
         self.mu = self.dtype.type(mu)
         if hasattr(opt['GradWeight'], 'ndim'):
             self.Wgrd = np.asarray(opt['GradWeight'].reshape((1,)*(dimN+2) +
@@ -2679,10 +2680,13 @@ class ConvL1L1Grd(ConvBPDNMaskDcpl):
         else:
             self.Wgrd = np.asarray(opt['GradWeight'], dtype=self.dtype)
 
-        self.Gf, GHGf = gradient_filters(self.cri.dimN+3, self.cri.axisN,
-                                         self.cri.Nv, dtype=self.dtype)
+        self.Gf, GHGf = gradient_filters(cri.dimN+3, cri.axisN, cri.Nv,
+                                         dtype=self.dtype)
         self.GHGf = self.Wgrd * GHGf
 
+        super(ConvL1L1Grd, self).__init__(D, S, lmbda, W, opt, dimK=dimK,
+                                          dimN=dimN)
+
 
 
     def setdict(self, D=None):
-- 
2.43.0


From 6bd1ab1b8ea2a6b48cd4f2c56fd6fe90a4419fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:14 +0000
Subject: [PATCH 12/54] fix: ConvBPDNJoint default options lack L21Weight

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 5756b88..e56de1e 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -776,7 +776,7 @@ class ConvBPDNJoint(ConvBPDN):
         """
 
         if opt is None:
-            opt = ConvBPDN.Options()
+            opt = ConvBPDNJoint.Options()
         super(ConvBPDNJoint, self).__init__(D, S, lmbda, opt, dimK=dimK,
                                             dimN=dimN)
         self.mu = self.dtype.type(mu)
-- 
2.43.0


From 5a456a247a08770f0bc11d30f5875dc2a931e18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:32 +0000
Subject: [PATCH 13/54] fix: x step of ConvBPDNScalarTV is wrong for an array
 TVWeight option

The linear system has a diagonal, not scaled identity, term when the
gradient weights differ between filters.
---
 sporco/admm/cbpdntv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 5981405..6342828 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -256,7 +256,7 @@ class ConvBPDNScalarTV(admm.ADMM):
         if self.cri.Cd > 1:
             self.DSf = np.sum(self.DSf, axis=self.cri.axisC, keepdims=True)
         if self.opt['HighMemSolve'] and self.cri.Cd == 1:
-            self.c = sl.solvedbi_sm_c(
+            self.c = sl.solvedbd_sm_c(
                 self.Df, np.conj(self.Df), self.rho*self.GHGf + self.rho,
                 self.cri.axisM)
         else:
@@ -268,7 +268,7 @@ class ConvBPDNScalarTV(admm.ADMM):
         """Updated cached c array when rho changes."""
 
         if self.opt['HighMemSolve'] and self.cri.Cd == 1:
-            self.c = sl.solvedbi_sm_c(
+            self.c = sl.solvedbd_sm_c(
                 self.Df, np.conj(self.Df), self.rho*self.GHGf + self.rho,
                 self.cri.axisM)
 
@@ -287,7 +287,7 @@ class ConvBPDNScalarTV(admm.ADMM):
             np.conj(self.Gf) * YUf[..., 0:-1], axis=-1))
 
         if self.cri.Cd == 1:
-            self.Xf[:] = sl.solvedbi_sm(
+            self.Xf[:] = sl.solvedbd_sm(
                 self.Df, self.rho*self.GHGf + self.rho, b, self.c,
                 self.cri.axisM)
         else:
-- 
2.43.0


From 2f04b2eeea1c6aa323700a6ed085e054e9aec003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:53 +0000
Subject: [PATCH 14/54] fix: ConvProdDictL1L1Grd fails or ignores initial
 values of Y and U

---
 sporco/admm/pdcsc.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 90ecec5..9f947cc 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -369,6 +369,17 @@ class ConvProdDictL1L1Grd(cbpdn.ConvL1L1Grd):
         # this class!
         scidx = -2 if dimK == 1 else -1
         SB = dot(B.T, S, axis=scidx)
+
+        # Set the shapes of the blocks of Y, which may be required for
+        # initialisation of U by the base class initialiser
+        cri = cr.CSC_ConvRepIndexing(D, SB, dimK=dimK, dimN=dimN)
+        shpS = list(cri.shpS)
+        shpS[cri.axisC] = S.shape[cri.axisC]
+        self.y0shp = tuple(shpS)
+        self.y1shp = cri.shpX
+        self.y0I = int(np.prod(np.array(self.y0shp[cri.axisC:])))
+        self.y1I = int(np.prod(np.array(self.y1shp[cri.axisC:])))
+
         super(ConvProdDictL1L1Grd, self).__init__(
             D, SB, lmbda, mu, W=W, opt=opt, dimK=dimK, dimN=dimN)
 
@@ -379,10 +390,8 @@ class ConvProdDictL1L1Grd(cbpdn.ConvL1L1Grd):
 
         # We need to correct the shape of S due to the modified S passed to
         # the base class initialiser
-        shpS = list(self.cri.shpS)
-        shpS[self.cri.axisC] = S.shape[self.cri.axisC]
-        self.cri.shpS = tuple(shpS)
-        self.S = np.asarray(S.reshape(shpS), dtype=self.dtype)
+        self.cri.shpS = self.y0shp
+        self.S = np.asarray(S.reshape(self.cri.shpS), dtype=self.dtype)
 
         # We also need to correct the shapes of a number of other working
         # arrays because we have to change the mechanism for combining
@@ -393,13 +402,11 @@ class ConvProdDictL1L1Grd(cbpdn.ConvL1L1Grd):
         # dimensional, with the component blocks being extracted via
         # one dimensional slicing and then reshaped to the appropriate
         # shapes.
-        self.y0shp = self.cri.shpS
-        self.y1shp = self.cri.shpX
-        self.y0I = int(np.prod(np.array(self.y0shp[self.cri.axisC:])))
-        self.y1I = int(np.prod(np.array(self.y1shp[self.cri.axisC:])))
         self.yshp = self.cri.shpX[0:self.cri.axisC:] + (self.y0I + self.y1I,)
-        self.Y = np.zeros(self.yshp, dtype=self.dtype)
-        self.U = np.zeros(self.yshp, dtype=self.dtype)
+        if self.opt['Y0'] is None:
+            self.Y = np.zeros(self.yshp, dtype=self.dtype)
+            if self.opt['U0'] is None:
+                self.U = np.zeros(self.yshp, dtype=self.dtype)
         self.YU = empty_aligned(self.Y.shape, dtype=self.dtype)
 
 
-- 
2.43.0


From 267b2931ae7692d8254446684310d9f9416c983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:53 +0000
Subject: [PATCH 15/54] fix: ConvProdDictBPDN.setdict does not update all
 arrays depending on B

---
 sporco/admm/pdcsc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 9f947cc..7f9eb8b 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -116,8 +116,7 @@ class ConvProdDictBPDN(cbpdn.ConvBPDN):
         if D is not None or not hasattr(self, 'Df'):
             self.Df = rfftn(self.D, self.cri.Nv, self.cri.axisN)
             self.DSf = np.conj(self.Df) * self.Sf
-            self.DSfBQ = dot(self.B.dot(self.Q).T, self.DSf,
-                             axis=self.cri.axisC)
+        self.DSfBQ = dot(self.B.dot(self.Q).T, self.DSf, axis=self.cri.axisC)
 
         # Fold square root of Gamma into the dictionary array to enable
         # use of the solvedbi_sm solver
-- 
2.43.0


From a3b29ab41f8a57eeebc3d1355fcfcd7497b3a349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:53 +0000
Subject: [PATCH 16/54] fix: ConvProdDictL1L1GrdJoint fails with default
 options

---
 sporco/admm/pdcsc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 7f9eb8b..bd20166 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -678,6 +678,9 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
           Number of spatial dimensions
         """
 
+        if opt is None:
+            opt = ConvProdDictL1L1GrdJoint.Options()
+
         super(ConvProdDictL1L1GrdJoint, self).__init__(D, B, S, lmbda, mu,
                                             opt=opt, dimK=dimK, dimN=dimN)
         self.wl21 = np.asarray(opt['L21Weight'], dtype=self.dtype)
-- 
2.43.0


From 97c5e1f103b7e8bd72e6ed852b037f51a9167875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:56 +0000
Subject: [PATCH 17/54] fix: dictionary learning options modify shared class
 defaults

The defaults for the solver methods selected for one options object were
written into the class attribute used by all other objects of the class.
---
 sporco/cdict.py             | 2 +-
 sporco/dictlrn/cbpdndl.py   | 4 ++++
 sporco/dictlrn/cbpdndlmd.py | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/sporco/cdict.py b/sporco/cdict.py
index 901b4d1..2649bf2 100644
--- a/sporco/cdict.py
+++ b/sporco/cdict.py
@@ -101,7 +101,7 @@ class ConstrainedDict(dict):
         # class defaults attribute. Otherwise, the dflt attribute is
         # initialised with the dflt parameter.
         if dflt is None:
-            self.dflt = self.__class__.defaults
+            self.dflt = self.defaults
         else:
             self.dflt = dflt
         # Initialise object with defaults with the corresponding node
diff --git a/sporco/dictlrn/cbpdndl.py b/sporco/dictlrn/cbpdndl.py
index 33eacd9..16165c4 100644
--- a/sporco/dictlrn/cbpdndl.py
+++ b/sporco/dictlrn/cbpdndl.py
@@ -362,6 +362,10 @@ class ConvBPDNDictLearn(dictlrn.DictLearn):
             self.xmethod = xmethod
             self.dmethod = dmethod
 
+            # The defaults for the selected methods belong to this object,
+            # and should not modify the class attribute shared with all
+            # other objects of this class
+            self.defaults = copy.deepcopy(self.__class__.defaults)
             self.defaults.update(
                 {'CBPDN': ConvBPDNOptionsDefaults(xmethod),
                  'CCMOD': ConvCnstrMODOptionsDefaults(dmethod)})
diff --git a/sporco/dictlrn/cbpdndlmd.py b/sporco/dictlrn/cbpdndlmd.py
index a5b4b07..1128b47 100644
--- a/sporco/dictlrn/cbpdndlmd.py
+++ b/sporco/dictlrn/cbpdndlmd.py
@@ -368,6 +368,10 @@ class ConvBPDNMaskDictLearn(dictlrn.DictLearn):
             self.xmethod = xmethod
             self.dmethod = dmethod
 
+            # The defaults for the selected methods belong to this object,
+            # and should not modify the class attribute shared with all
+            # other objects of this class
+            self.defaults = copy.deepcopy(self.__class__.defaults)
             self.defaults.update(
                 {'CBPDN': ConvBPDNMaskOptionsDefaults(xmethod),
                  'CCMOD': ConvCnstrMODMaskOptionsDefaults(dmethod)})
-- 
2.43.0


From d329e3d6461a221db69d16bc2017519752a23d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:56 +0000
Subject: [PATCH 18/54] fix: ConstrainedDict.setdefault and |= bypass key and
 value checks

---
 sporco/cdict.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/sporco/cdict.py b/sporco/cdict.py
index 2649bf2..b249dcb 100644
--- a/sporco/cdict.py
+++ b/sporco/cdict.py
@@ -127,6 +127,43 @@ class ConstrainedDict(dict):
 
 
 
+    def __ior__(self, d):
+        """Update the dict, in place, with the dict tree in parameter `d`.
+
+        Parameters
+        ----------
+        d : dict
+          New dict content
+        """
+
+        self.update(d)
+        return self
+
+
+
+    def setdefault(self, key, default=None):
+        """Get value corresponding to key, inserting `default` if it has
+        no value.
+
+        Parameters
+        ----------
+        key : str or tuple of str
+          Dict key
+        default : any
+          Value to be inserted if the key is not present
+        """
+
+        kc = key
+        sd = self
+        if isinstance(key, tuple):
+            kc = key[-1]
+            sd = self.__class__.getparent(self, key)
+        if kc not in sd:
+            self.__setitem__(key, default)
+        return self.__getitem__(key)
+
+
+
     def __setitem__(self, key, value):
         """Set value corresponding to key.
 
-- 
2.43.0


From 490edc82ca1cdddde1d534d53818f7fde21271d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:48 +0000
Subject: [PATCH 19/54] fix: Hessian of weighted and masked PGM data fidelity
 terms ignores the weights

hessian_f of the weighted and masked classes was that of the unweighted
base class, so the Cauchy step size policy used the wrong curvature.
---
 sporco/pgm/bpdn.py  |  7 +++++++
 sporco/pgm/cbpdn.py | 18 ++++++++++++++++++
 sporco/pgm/ccmod.py | 18 ++++++++++++++++++
 sporco/pgm/cmod.py  |  7 +++++++
 4 files changed, 50 insertions(+)

diff --git a/sporco/pgm/bpdn.py b/sporco/pgm/bpdn.py
index 08844f6..bfdfabf 100644
--- a/sporco/pgm/bpdn.py
+++ b/sporco/pgm/bpdn.py
@@ -359,6 +359,13 @@ class WeightedBPDN(BPDN):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` and apply to V."""
+
+        return self.D.T.dot(self.W * self.D.dot(V))
+
+
+
     def obfn_f(self, X=None):
         r"""Compute data fidelity term :math:`(1/2) \| D \mathbf{x} -
         \mathbf{s} \|_W^2`.
diff --git a/sporco/pgm/cbpdn.py b/sporco/pgm/cbpdn.py
index 95a9d73..fbb9d30 100644
--- a/sporco/pgm/cbpdn.py
+++ b/sporco/pgm/cbpdn.py
@@ -478,6 +478,24 @@ class ConvBPDNMask(ConvBPDN):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        # Apply mask to D V in the spatial domain
+        HV = irfftn(inner(self.Df, V, axis=self.cri.axisM), self.cri.Nv,
+                    self.cri.axisN)
+        WHVf = rfftn((self.W**2) * HV, self.cri.Nv, self.cri.axisN)
+
+        hessfv = np.conj(self.Df) * WHVf
+
+        # Multiple channel signal, multiple channel dictionary
+        if self.cri.Cd > 1:
+            hessfv = np.sum(hessfv, axis=self.cri.axisC, keepdims=True)
+
+        return hessfv
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \| W (\sum_m
         \mathbf{d}_m * \mathbf{x}_{m} - \mathbf{s}) \|_2^2`
diff --git a/sporco/pgm/ccmod.py b/sporco/pgm/ccmod.py
index 2059b28..903977c 100644
--- a/sporco/pgm/ccmod.py
+++ b/sporco/pgm/ccmod.py
@@ -576,6 +576,24 @@ class ConvCnstrMODMask(ConvCnstrMOD):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        # Apply mask to X V in the spatial domain
+        HV = irfftn(inner(self.Zf, V, axis=self.cri.axisM), self.cri.Nv,
+                    self.cri.axisN)
+        WHVf = rfftn((self.W**2) * HV, self.cri.Nv, self.cri.axisN)
+
+        hessfv = inner(np.conj(self.Zf), WHVf, axis=self.cri.axisK)
+
+        # Multiple channel signal, single channel dictionary
+        if self.cri.C > 1 and self.cri.Cd == 1:
+            hessfv = np.sum(hessfv, axis=self.cri.axisC, keepdims=True)
+
+        return hessfv
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \sum_k \| W (\sum_m
         \mathbf{d}_m * \mathbf{x}_{k,m} - \mathbf{s}_k) \|_2^2`
diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index c6f9894..8cd2b55 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -325,6 +325,13 @@ class WeightedCnstrMOD(CnstrMOD):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` and apply to V."""
+
+        return (self.W * V.dot(self.Z)).dot(self.Z.T)
+
+
+
     def obfn_f(self, X=None):
         r"""Compute data fidelity term :math:`(1/2) \| D \mathbf{x} -
         \mathbf{s} \|_W^2`.
-- 
2.43.0


From 9ef5c02d4a25a266edb2024f307fea15912625a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:48 +0000
Subject: [PATCH 20/54] fix: Monotone option of PGMDFT does not revert the
 solution array

When the objective increases, only the frequency domain representation was
reverted, so that X and Xf were no longer the same iterate.
---
 sporco/pgm/pgm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 0f25ea5..59f3615 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -806,6 +806,7 @@ class PGMDFT(PGM):
                 # If increment on objective function
                 # revert to previous iterate
                 self.Xf = self.Xfprv.copy()
+                self.X[:] = irfftn(self.Xf, self.Nv, self.axisN)
                 self.objfn = self.objfn_prev
 
         return gradf
-- 
2.43.0


From 475c48e896043f408bd33ea37f00689d88c5da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:02 +0000
Subject: [PATCH 21/54] fix: online CDL gradient is wrong for multi-channel
 data and single-channel dictionary

The coefficient maps were reshaped to a layout that is not in general the
one of the signal array, so that the residual was computed for all pairs of
channels.
---
 sporco/dictlrn/onlinecdl.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index f17a802..b1f0860 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -282,7 +282,8 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
                                    self.opt['CBPDN'], dimK=dimK,
                                    dimN=self.cri.dimN)
             xstep.solve()
-            self.Sf = xstep.Sf
+            self.Sf = xstep.Sf.reshape(xstep.Sf.shape[0:self.dimN] +
+                                       self.cri.shpS[self.dimN:])
             self.setcoef(xstep.getcoef())
             self.xstep_itstat = xstep.itstat[-1] if xstep.itstat else None
 
@@ -291,18 +292,10 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
     def setcoef(self, Z):
         """Set coefficient array."""
 
-        # If the dictionary has a single channel but the input (and
-        # therefore also the coefficient map array) has multiple
-        # channels, the channel index and multiple image index have
-        # the same behaviour in the dictionary update equation: the
-        # simplest way to handle this is to just reshape so that the
-        # channels also appear on the multiple image index.
-        if self.cri.Cd == 1 and self.cri.C > 1:
-            Z = Z.reshape(self.cri.Nv + (1,) + (self.cri.Cx*self.cri.K,) +
-                          (self.cri.M,))
-            if Z.shape != self.Z.shape:
-                self.Z = empty_aligned(Z.shape, self.dtype)
-        self.Z[:] = np.asarray(Z, dtype=self.dtype)
+        # The sparse coding solver may have interpreted multiple channels
+        # as multiple images: ensure that the array has the layout assumed
+        # in the dictionary update
+        self.Z[:] = np.asarray(Z.reshape(self.cri.shpX), dtype=self.dtype)
         self.Zf = rfftn(self.Z, self.cri.Nv, self.cri.axisN)
 
 
-- 
2.43.0


From 16ba2197a091575e4fd42b43a77d2143558d19c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:02 +0000
Subject: [PATCH 22/54] fix: online masked CDL gradient is wrong for masks that
 are not binary

The gradient of (1/2)||W(DX - S)||^2 involves the square of the mask.
---
 sporco/dictlrn/onlinecdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index b1f0860..64edff7 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -573,7 +573,7 @@ class OnlineConvBPDNMaskDictLearn(OnlineConvBPDNDictLearn):
         Ryf = inner(self.Zf, self.Df, axis=self.cri.axisM) - self.Sf
         # Transform to spatial domain, apply mask, and transform back to
         # frequency domain
-        Ryf[:] = rfftn(W * irfftn(Ryf, self.cri.Nv, self.cri.axisN),
+        Ryf[:] = rfftn(W**2 * irfftn(Ryf, self.cri.Nv, self.cri.axisN),
                           None, self.cri.axisN)
         # Compute gradient
         gradf = inner(np.conj(self.Zf), Ryf, axis=self.cri.axisK)
-- 
2.43.0


From 0989750f236a53662283c2ca685376296253cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:02 +0000
Subject: [PATCH 23/54] fix: online CDL does not adapt to a change in the
 number of training images

The arrays were only reinitialised when the spatial size changed.
---
 sporco/dictlrn/onlinecdl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index 64edff7..2da8b5a 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -245,9 +245,10 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
         """Initalise variables required for sparse coding and dictionary
         update for training data `S`."""
 
-        Nv = S.shape[0:self.dimN]
-        if self.cri is None or Nv != self.cri.Nv:
-            self.cri = CDU_ConvRepIndexing(self.dsz, S, dimK, self.dimN)
+        cri = CDU_ConvRepIndexing(self.dsz, S, dimK, self.dimN)
+        if self.cri is None or cri.shpS != self.cri.shpS or \
+           cri.shpX != self.cri.shpX:
+            self.cri = cri
             if self.opt['CUDA_CBPDN']:
                 if self.cri.Cd > 1 or self.cri.Cx > 1:
                     raise ValueError('CUDA CBPDN solver can only be used for '
-- 
2.43.0


From 38723e32dd7c4a2342a55efca02a8f4422c85bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:24 +0000
Subject: [PATCH 24/54] fix: gradient_filters fails for default dtype and for
 axes not starting at zero

---
 sporco/signal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index 802b091..f81d876 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -227,10 +227,11 @@ def gradient_filters(ndim, axes, axshp, dtype=None):
 
     if dtype is None:
         dtype = np.float32
+    dtype = np.dtype(dtype)
     g = np.zeros([2 if k in axes else 1 for k in range(ndim)] +
                  [len(axes),], dtype)
-    for k in axes:
-        g[(0,) * k + (slice(None),) + (0,) * (g.ndim - 2 - k) + (k,)] = \
+    for n, k in enumerate(axes):
+        g[(0,) * k + (slice(None),) + (0,) * (g.ndim - 2 - k) + (n,)] = \
             np.array([1, -1])
     if is_complex_dtype(dtype):
         Gf = fftn(g, axshp, axes=axes)
-- 
2.43.0


From 1f255d2f0175cf39bcc8ce0996146d584889a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:24 +0000
Subject: [PATCH 25/54] fix: TV denoising adjoint constraint operator assumes
 axes start at zero

---
 sporco/admm/tvl1.py | 3 ++-
 sporco/admm/tvl2.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/tvl1.py b/sporco/admm/tvl1.py
index 5380f68..00956a0 100644
--- a/sporco/admm/tvl1.py
+++ b/sporco/admm/tvl1.py
@@ -333,7 +333,8 @@ class TVL1Denoise(admm.ADMM):
         """
 
         return np.sum(np.concatenate(
-            [gradT(X[..., ax], ax)[..., np.newaxis] for ax in self.axes] +
+            [gradT(X[..., n], ax)[..., np.newaxis] for n, ax in
+             enumerate(self.axes)] +
             [X[..., -1:],], axis=X.ndim-1), axis=X.ndim-1)
 
 
diff --git a/sporco/admm/tvl2.py b/sporco/admm/tvl2.py
index 348fb36..ad1eb3d 100644
--- a/sporco/admm/tvl2.py
+++ b/sporco/admm/tvl2.py
@@ -323,7 +323,8 @@ class TVL2Denoise(admm.ADMM):
         """
 
         return np.sum(np.concatenate(
-            [gradT(X[..., ax], ax)[..., np.newaxis] for ax in self.axes],
+            [gradT(X[..., n], ax)[..., np.newaxis] for n, ax in
+             enumerate(self.axes)],
             axis=X.ndim-1), axis=X.ndim-1)
 
 
-- 
2.43.0


From 31c6cdfe66f9c11699fe4abd7ca47d00501e7cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:39 +0000
Subject: [PATCH 26/54] fix: prox_l1 of a complex array is NaN where the array
 is zero

---
 sporco/prox/_lp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/prox/_lp.py b/sporco/prox/_lp.py
index 1df8802..4899f59 100644
--- a/sporco/prox/_lp.py
+++ b/sporco/prox/_lp.py
@@ -180,7 +180,8 @@ def prox_l1(v, alpha):
         else:
             return np.sign(v) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
     else:
-        return (v / np.abs(v)) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
+        return zdivide(v, np.abs(v)) * (
+            np.clip(np.abs(v) - alpha, 0, float('Inf')))
 
 
 
-- 
2.43.0


From a421f511fb55b8b31ee78b77fd6e89161108fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:39 +0000
Subject: [PATCH 27/54] fix: zero mean constraint projection ignores number of
 spatial dimensions

---
 sporco/cnvrep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/cnvrep.py b/sporco/cnvrep.py
index f0ec3f3..18b97f5 100644
--- a/sporco/cnvrep.py
+++ b/sporco/cnvrep.py
@@ -1008,7 +1008,8 @@ def _Pcn_zm(x, dsz, Nv, dimN=2, dimC=1):
       Projection of input onto constraint set
     """
 
-    return normalise(zeromean(zpad(bcrop(x, dsz, dimN), Nv), dsz), dimN + dimC)
+    return normalise(zeromean(zpad(bcrop(x, dsz, dimN), Nv), dsz, dimN),
+                     dimN + dimC)
 
 
 
-- 
2.43.0


From edffbf27c3315b21afe938328e5731be1ff6ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:39 +0000
Subject: [PATCH 28/54] fix: default options of ADMMTwoBlockCnstrnt are those
 of the base class

---
 sporco/admm/admm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/admm.py b/sporco/admm/admm.py
index babe48c..cc0a987 100644
--- a/sporco/admm/admm.py
+++ b/sporco/admm/admm.py
@@ -1102,7 +1102,7 @@ class ADMMTwoBlockCnstrnt(ADMM):
         """
 
         if opt is None:
-            opt = ADMM.Options()
+            opt = ADMMTwoBlockCnstrnt.Options()
         self.blkaxis = blkaxis
         self.blkidx = blkidx
         super(ADMMTwoBlockCnstrnt, self).__init__(Nx, yshape, yshape,
-- 
2.43.0


From d613caeab8e9d865fb28a3369e78b00b7cdfa8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:39 +0000
Subject: [PATCH 29/54] fix: ParConvBPDN initial values are assigned to the
 wrong variables

---
 sporco/admm/parcbpdn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index f8ff768..92baccd 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -647,7 +647,7 @@ class ParConvBPDN(GenericConvBPDN):
         shp_Y0[0] = self.ngrp
         shp_Y0[mp_axisC] = mp_C
         if self.opt['Y0'] is not None:
-            init_mpraw('Y0', np.moveaxis(
+            init_mpraw('mp_Y0', np.moveaxis(
                 self.opt['Y0'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
@@ -656,7 +656,7 @@ class ParConvBPDN(GenericConvBPDN):
         mp_Y0old = mpraw_as_np(shp_Y0, mp_X.dtype)
         global mp_Y1
         if self.opt['Y1'] is not None:
-            init_mpraw('Y1', np.moveaxis(
+            init_mpraw('mp_Y1', np.moveaxis(
                 self.opt['Y1'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
@@ -665,14 +665,14 @@ class ParConvBPDN(GenericConvBPDN):
         mp_Y1old = mpraw_as_np(shp_X, mp_X.dtype)
         global mp_U0
         if self.opt['U0'] is not None:
-            init_mpraw('U0', np.moveaxis(
+            init_mpraw('mp_U0', np.moveaxis(
                 self.opt['U0'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
             mp_U0 = mpraw_as_np(shp_Y0, mp_X.dtype)
         global mp_U1
         if self.opt['U1'] is not None:
-            init_mpraw('U1', np.moveaxis(
+            init_mpraw('mp_U1', np.moveaxis(
                 self.opt['U1'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
-- 
2.43.0


From 22faba3e897de0087e1298d17b9001ca08baffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:39 +0000
Subject: [PATCH 30/54] fix: ParConvBPDN x step sums over wrong axis for
 multi-channel dictionaries

---
 sporco/admm/parcbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index 92baccd..d9019a9 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -151,7 +151,7 @@ def par_xstep(i):
                             mp_cache[i], axis=mp_axisM)
     else:
         b = sl.inner(np.conj(mp_Df[mp_grp[i]:mp_grp[i+1]]), YU0f,
-                     axis=mp_C) + mp_alpha**2*YU1f
+                     axis=mp_axisC) + mp_alpha**2*YU1f
         Xf = sl.solvemdbi_ism(mp_Df[mp_grp[i]:mp_grp[i+1]], mp_alpha**2, b,
                               mp_axisM, mp_axisC)
     mp_X[mp_grp[i]:mp_grp[i+1]] = irfftn(Xf, mp_Nv,
-- 
2.43.0


From 6e7d6c39893de3acf913898588b34de1c2632d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:39 +0000
Subject: [PATCH 31/54] fix: ParConvBPDN compares iteration numbers by identity

The comparisons fail for iteration numbers above 256.
---
 sporco/admm/parcbpdn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index d9019a9..c9ad454 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -771,10 +771,10 @@ class ParConvBPDN(GenericConvBPDN):
             mp_Y1old[:] = np.copy(mp_Y1)
 
             # Perform the variable updates.
-            if self.k is first_iteration:
+            if self.k == first_iteration:
                 self.distribute(par_initial_stepgrp, mp_ngrp)
             y0astep()
-            if self.k is last_iteration:
+            if self.k == last_iteration:
                 self.distribute(par_final_stepgrp, mp_ngrp)
             else:
                 self.distribute(par_stepgrp, mp_ngrp)
-- 
2.43.0


From 2174c6f6cff2ee72b51246631d7a912842baf0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:56 +0000
Subject: [PATCH 32/54] fix: masked consensus dictionary update does not
 rescale all dual variables

The scaled dual variable of the second constraint block has to be rescaled
when the penalty parameter changes.
---
 sporco/admm/ccmodmd.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sporco/admm/ccmodmd.py b/sporco/admm/ccmodmd.py
index 7bf82bb..cdfb66f 100644
--- a/sporco/admm/ccmodmd.py
+++ b/sporco/admm/ccmodmd.py
@@ -967,6 +967,17 @@ class ConvCnstrMODMaskDcpl_Consensus(ccmod.ConvCnstrMOD_Consensus):
 
 
 
+    def update_rho(self, k, r, s):
+        """Automatic rho adjustment."""
+
+        rhoprv = self.rho
+        super(ConvCnstrMODMaskDcpl_Consensus, self).update_rho(k, r, s)
+        # The scaled dual variable for the second block has to be
+        # rescaled in the same way as that for the first one
+        self.U1 *= rhoprv / self.rho
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \| W \left( \sum_m
         \mathbf{d}_m * \mathbf{x}_m - \mathbf{s} \right) \|_2^2`.
-- 
2.43.0


From fa0942f7b6264a99a4541ecf9858db92440be90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:40 +0000
Subject: [PATCH 33/54] fix: y step of ConvBPDNScalarTV is not the prox of the
 TV term

The gradient vectors were shrunk jointly as a single vector instead of
independently at each sample, as in the definition of the regulariser.
---
 sporco/admm/cbpdntv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 6342828..7de7817 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -316,7 +316,8 @@ class ConvBPDNScalarTV(admm.ADMM):
         :math:`\mathbf{y}`."""
 
         AXU = self.AX + self.U
-        self.Y[..., 0:-1] = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho)
+        self.Y[..., 0:-1] = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho,
+                                       axis=-1)
         self.Y[..., -1] = sp.prox_l1(AXU[..., -1],
                                      (self.lmbda/self.rho) * self.Wl1)
 
-- 
2.43.0


From 036680b64efd38903bb5877a4bc0f7b57373b1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:16 +0000
Subject: [PATCH 34/54] fix: sum over channels in ConvBPDNRecTV.cnst_AT for
 multi-channel dictionaries

---
 sporco/admm/cbpdntv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 7de7817..9ffd44a 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -1301,8 +1301,10 @@ class ConvBPDNRecTV(admm.ADMM):
         \ldots) \mathbf{y}`.
         """
 
-        return self.cnst_A0T(self.block_sep0(Y)) + \
-            np.sum(self.cnst_A1T(self.block_sep1(Y)), axis=-1)
+        A1TY1 = np.sum(self.cnst_A1T(self.block_sep1(Y)), axis=-1)
+        if self.cri.Cd > 1:
+            A1TY1 = np.sum(A1TY1, axis=self.cri.axisC, keepdims=True)
+        return self.cnst_A0T(self.block_sep0(Y)) + A1TY1
 
 
 
-- 
2.43.0


From 6b2a26c6d9b18e556f6b1496eeb2ba98e4ad2116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:58 +0000
Subject: [PATCH 35/54] fix: solve_symmetric_sylvester is wrong for indefinite
 matrices

The eigenvalues of the symmetric matrices were replaced by their absolute
values, so that the solution did not satisfy the equation when A or B has
negative eigenvalues.
---
 sporco/linalg.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sporco/linalg.py b/sporco/linalg.py
index a274522..3d8ed0b 100644
--- a/sporco/linalg.py
+++ b/sporco/linalg.py
@@ -851,7 +851,6 @@ def solve_symmetric_sylvester(A, B, C, alpha):
             LambdaA, QA = A, None
         else:
             LambdaA, QA = np.linalg.eigh(A)
-            LambdaA = np.abs(LambdaA)
     if LambdaA.ndim == 1:
         LambdaA = LambdaA[:, np.newaxis]
     if isinstance(B, tuple) and len(B) == 2:
@@ -862,7 +861,6 @@ def solve_symmetric_sylvester(A, B, C, alpha):
             LambdaB, QB = B, None
         else:
             LambdaB, QB = np.linalg.eigh(B)
-            LambdaB = np.abs(LambdaB)
     if LambdaB.ndim == 1:
         LambdaB = LambdaB[np.newaxis]
 
-- 
2.43.0


From 3509ba9d839d7db22ed4beabc586113de07ccb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:58 +0000
Subject: [PATCH 36/54] fix: numexpr variants of diagonal plus rank one solvers
 change dtype

solvedbi_sm discarded the imaginary part for real a and complex b, and
solvedbd_sm returned a complex128 array for complex64 input.
---
 sporco/linalg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/linalg.py b/sporco/linalg.py
index 3d8ed0b..930f508 100644
--- a/sporco/linalg.py
+++ b/sporco/linalg.py
@@ -268,7 +268,8 @@ def solvedbi_sm(ah, rho, b, c=None, axis=4):
         c = solvedbi_sm_c(ah, a, rho, axis)
     if have_numexpr:
         cb = inner(c, b, axis=axis)
-        return ne.evaluate('(b - (a * cb)) / rho').astype(a.dtype)
+        return ne.evaluate('(b - (a * cb)) / rho').astype(
+            np.result_type(a, b), copy=False)
     else:
         return (b - (a * inner(c, b, axis=axis))) / rho
 
@@ -337,7 +338,8 @@ def solvedbd_sm(ah, d, b, c=None, axis=4):
         c = solvedbd_sm_c(ah, a, d, axis)
     if have_numexpr:
         cb = inner(c, b, axis=axis)
-        return ne.evaluate('(b - (a * cb)) / d')
+        return ne.evaluate('(b - (a * cb)) / d').astype(
+            np.result_type(a, b), copy=False)
     else:
         return (b - (a * inner(c, b, axis=axis))) / d
 
-- 
2.43.0


From 39a93c41de25451185d9a743bc0a84b95e54eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:53 +0000
Subject: [PATCH 37/54] fix: rgb2gray is wrong for integer images and for Nr x
 Nc x 3 x K arrays

The weights were converted to the dtype of the image, so that they are all
zero for an integer image, and were applied to the wrong axis of an array of
images.
---
 sporco/signal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index f81d876..6ac7d4c 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -106,8 +106,9 @@ def rgb2gray(rgb):
       Grayscale image as Nr x Nc or Nr x Nc x K array
     """
 
-    w = np.array([0.299, 0.587, 0.114], dtype=rgb.dtype)[np.newaxis,
-                                                         np.newaxis]
+    dtype = rgb.dtype if np.issubdtype(rgb.dtype, np.inexact) else np.float64
+    w = np.array([0.299, 0.587, 0.114], dtype=dtype)
+    w = w.reshape((1, 1, 3) + (1,) * (rgb.ndim - 3))
     return np.sum(w * rgb, axis=2)
 
 
-- 
2.43.0


From 1facd546f826d65f431dce41214d208abc5b3b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:53 +0000
Subject: [PATCH 38/54] fix: rndmask mask is constant for integer and bool
 dtypes

---
 sporco/signal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index 6ac7d4c..e87f8f3 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -85,9 +85,9 @@ def rndmask(shp, frc, dtype=None):
       Mask image
     """
 
-    msk = np.asarray(np.random.uniform(-1.0, 1.0, shp), dtype=dtype)
-    msk[np.abs(msk) > frc] = 1.0
-    msk[np.abs(msk) < frc] = 0.0
+    rnd = np.random.uniform(-1.0, 1.0, shp)
+    msk = np.zeros(rnd.shape, dtype=dtype)
+    msk[np.abs(rnd) > frc] = 1.0
     return msk
 
 
-- 
2.43.0


From dd5e13479d3b9c014fa61a80744bdd66b3895231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:53 +0000
Subject: [PATCH 39/54] fix: grad and gradT set the wrong samples to zero for
 negative axis

---
 sporco/signal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sporco/signal.py b/sporco/signal.py
index e87f8f3..c88cac6 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -163,6 +163,8 @@ def grad(x, axis, zero_pad=False):
     if zero_pad:
         xg = np.diff(x, axis=axis, prepend=0, append=0)
     else:
+        if axis < 0:
+            axis = x.ndim + axis
         slc = (slice(None),)*axis + (slice(-1, None),)
         xg = np.roll(x, -1, axis=axis) - x
         xg[slc] = 0.0
@@ -194,6 +196,8 @@ def gradT(x, axis, zero_pad=False):
     if zero_pad:
         xg = -np.diff(x, axis=axis)
     else:
+        if axis < 0:
+            axis = x.ndim + axis
         slc0 = (slice(None),) * axis
         xg = np.roll(x, 1, axis=axis) - x
         xg[slc0 + (slice(0, 1),)] = -x[slc0 + (slice(0, 1),)]
-- 
2.43.0


From 42bdca45da48e6d17bb5f1c74e137be2cbdc81ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:53 +0000
Subject: [PATCH 40/54] fix: bsnr difference wraps around for unsigned integer
 images

---
 sporco/metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/metric.py b/sporco/metric.py
index 3a3c36c..610ef90 100644
--- a/sporco/metric.py
+++ b/sporco/metric.py
@@ -192,7 +192,8 @@ def bsnr(vblr, vnsy):
     """
 
     blrvar = np.var(vblr)
-    nsevar = np.var(vnsy - vblr)
+    nsevar = np.var(np.subtract(vnsy, vblr, dtype=np.result_type(
+        vnsy, vblr, np.float64)))
     with np.errstate(divide='ignore'):
         rt = blrvar / nsevar
     return 10.0 * np.log10(rt)
-- 
2.43.0


From d95bb657aa48060b4a38e9cb9e0e0a9c67f27dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:35 +0000
Subject: [PATCH 41/54] fix: bilinear_demosaic uses bicubic instead of bilinear
 interpolation

The default spline degree of RectBivariateSpline is three.
---
 sporco/interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/interp.py b/sporco/interp.py
index 0a1e58b..cb55170 100644
--- a/sporco/interp.py
+++ b/sporco/interp.py
@@ -54,7 +54,7 @@ def bilinear_demosaic(img):
     x = range(1, img.shape[0], 2)
     y = range(1, img.shape[1], 2)
     #fi = interp2d(x, y, img[1::2, 1::2])
-    fi = RectBivariateSpline(x, y, img[1::2, 1::2], s=0)
+    fi = RectBivariateSpline(x, y, img[1::2, 1::2], kx=1, ky=1, s=0)
     sr = fi(range(0, img.shape[0]), range(0, img.shape[1]))
 
     # Interpolate green channel. We can't use `interp2d` here because
@@ -83,7 +83,7 @@ def bilinear_demosaic(img):
     x = range(0, img.shape[0], 2)
     y = range(0, img.shape[1], 2)
     #fi = interp2d(x, y, img[0::2, 0::2])
-    fi = RectBivariateSpline(x, y, img[0::2, 0::2], s=0)
+    fi = RectBivariateSpline(x, y, img[0::2, 0::2], kx=1, ky=1, s=0)
     sb = fi(range(0, img.shape[0]), range(0, img.shape[1]))
 
     return np.dstack((sr, sg, sb))
-- 
2.43.0


From 4ada8d66b489f3368060695d5ea801a4759e215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:40 +0000
Subject: [PATCH 42/54] fix: include L1Weight in accurately evaluated
 dictionary learning objective

---
 sporco/dictlrn/bpdndl.py    | 2 +-
 sporco/dictlrn/cbpdndl.py   | 2 +-
 sporco/dictlrn/cbpdndlmd.py | 2 +-
 sporco/dictlrn/wbpdndl.py   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sporco/dictlrn/bpdndl.py b/sporco/dictlrn/bpdndl.py
index fc6d67b..06bf2b4 100644
--- a/sporco/dictlrn/bpdndl.py
+++ b/sporco/dictlrn/bpdndl.py
@@ -200,7 +200,7 @@ class BPDNDictLearn(dictlrn.DictLearn):
             X = self.xstep.var_y()
             S = self.xstep.S
             dfd = 0.5*np.linalg.norm((D.dot(X) - S))**2
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1, ObjFun=dfd+self.xstep.lmbda*rl1)
         else:
             return None
diff --git a/sporco/dictlrn/cbpdndl.py b/sporco/dictlrn/cbpdndl.py
index 16165c4..2c98a9d 100644
--- a/sporco/dictlrn/cbpdndl.py
+++ b/sporco/dictlrn/cbpdndl.py
@@ -521,7 +521,7 @@ class ConvBPDNDictLearn(dictlrn.DictLearn):
             Ef = inner(Df, Xf, axis=self.xstep.cri.axisM) - Sf
             dfd = rfl2norm2(Ef, self.xstep.S.shape,
                             axis=self.xstep.cri.axisN) / 2.0
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1,
                         ObjFun=dfd + self.xstep.lmbda * rl1)
         else:
diff --git a/sporco/dictlrn/cbpdndlmd.py b/sporco/dictlrn/cbpdndlmd.py
index 1128b47..93c33dc 100644
--- a/sporco/dictlrn/cbpdndlmd.py
+++ b/sporco/dictlrn/cbpdndlmd.py
@@ -537,7 +537,7 @@ class ConvBPDNMaskDictLearn(dictlrn.DictLearn):
                 X = self.xstep.getcoef()
             else:
                 X = self.xstep.var_y1()
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1,
                         ObjFun=dfd + self.xstep.lmbda * rl1)
         else:
diff --git a/sporco/dictlrn/wbpdndl.py b/sporco/dictlrn/wbpdndl.py
index 27b34e2..148780f 100644
--- a/sporco/dictlrn/wbpdndl.py
+++ b/sporco/dictlrn/wbpdndl.py
@@ -204,7 +204,7 @@ class WeightedBPDNDictLearn(dictlrn.DictLearn):
             X = self.xstep.var_x()
             S = self.xstep.S
             dfd = 0.5*np.linalg.norm(np.sqrt(self.W) * (D.dot(X) - S))**2
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1, ObjFun=dfd+self.xstep.lmbda*rl1)
         else:
             return None
-- 
2.43.0


From 88f48fc6cc06e8f5ea339a3d2b8c8cdce1aa7e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:57 +0000
Subject: [PATCH 43/54] fix: use the options class of the derived online
 dictionary learning solver by default

---
 sporco/dictlrn/onlinecdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index 2da8b5a..f3e4262 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -152,7 +152,7 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
         """
 
         if opt is None:
-            opt = OnlineConvBPDNDictLearn.Options()
+            opt = type(self).Options()
         if not isinstance(opt, OnlineConvBPDNDictLearn.Options):
             raise TypeError('Parameter opt must be an instance of '
                             'OnlineConvBPDNDictLearn.Options')
-- 
2.43.0


From 4f2fecf26bc5f7aa92993afb09eb66c7e768a4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 44/54] fix: infer the number of signal axes when dimK is None
 in ConvProdDictL1L1Grd

---
 sporco/admm/pdcsc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index bd20166..c350bc6 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -366,6 +366,9 @@ class ConvProdDictL1L1Grd(cbpdn.ConvL1L1Grd):
         # a N x M_B matrix, so that it initialises arrays with the correct
         # number of channels. This is the first of many nasty hacks in
         # this class!
+        # One of the non-spatial axes of S is always the channel axis
+        if dimK is None:
+            dimK = S.ndim - dimN - 1
         scidx = -2 if dimK == 1 else -1
         SB = dot(B.T, S, axis=scidx)
 
-- 
2.43.0


From 91728fdd73a5e63202e5f4d0938cb9858f3cf617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:30 +0000
Subject: [PATCH 45/54] fix: cast dictionary to solver data type in
 ElasticNet.setdict

---
 sporco/admm/bpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/bpdn.py b/sporco/admm/bpdn.py
index 547c150..bf0ffd7 100644
--- a/sporco/admm/bpdn.py
+++ b/sporco/admm/bpdn.py
@@ -699,7 +699,7 @@ class ElasticNet(BPDN):
     def setdict(self, D):
         """Set dictionary array."""
 
-        self.D = np.asarray(D)
+        self.D = np.asarray(D, dtype=self.dtype)
         self.DTS = self.D.T.dot(self.S)
         # Factorise dictionary for efficient solves
         self.lu, self.piv = sl.cho_factor(self.D, self.mu + self.rho)
-- 
2.43.0


From f7e32cf014e8e17ff662ccc2b50fa9991599f706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:31 +0000
Subject: [PATCH 46/54] fix: use coefficient array of solver data type in
 CnstrMOD.setcoef

---
 sporco/admm/cmod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cmod.py b/sporco/admm/cmod.py
index 7c35907..b096afd 100644
--- a/sporco/admm/cmod.py
+++ b/sporco/admm/cmod.py
@@ -212,9 +212,9 @@ class CnstrMOD(admm.ADMMEqual):
         """Set coefficient array."""
 
         self.Z = np.asarray(Z, dtype=self.dtype)
-        self.SZT = self.S.dot(Z.T)
+        self.SZT = self.S.dot(self.Z.T)
         # Factorise dictionary for efficient solves
-        self.lu, self.piv = sl.lu_factor(Z, self.rho)
+        self.lu, self.piv = sl.lu_factor(self.Z, self.rho)
         self.lu = np.asarray(self.lu, dtype=self.dtype)
 
 
-- 
2.43.0


From 8ec27c0739acb793ab7abca8612b8ad08af42825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:31 +0000
Subject: [PATCH 47/54] fix: initialise X of GenericPPPConsensus with solver
 data type

---
 sporco/admm/ppp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/ppp.py b/sporco/admm/ppp.py
index 3366830..d2ec12e 100644
--- a/sporco/admm/ppp.py
+++ b/sporco/admm/ppp.py
@@ -194,7 +194,7 @@ class GenericPPPConsensus(admm.WeightedADMMConsensus):
                                                    self.dtype, opt)
 
         # Initialise working variable
-        self.X = np.zeros(self.xshape)
+        self.X = np.zeros(self.xshape, dtype=self.dtype)
 
 
 
-- 
2.43.0


From 0e7c1936456c8e206ec52dd1a5609ed83711f900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:31 +0000
Subject: [PATCH 48/54] fix: initialise Yprv of GenericPPP with solver data
 type

---
 sporco/pgm/ppp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/pgm/ppp.py b/sporco/pgm/ppp.py
index ff410e1..b407514 100644
--- a/sporco/pgm/ppp.py
+++ b/sporco/pgm/ppp.py
@@ -43,7 +43,7 @@ class GenericPPP(pgm.PGM):
         super(GenericPPP, self).__init__(xshape, self.dtype, opt)
 
         self.Y = self.X.copy()
-        self.Yprv = np.zeros(self.Y.shape)
+        self.Yprv = np.zeros(self.Y.shape, dtype=self.dtype)
 
 
 
-- 
2.43.0


From 2ea25832e2d915495c9609de516afd778979fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:31 +0000
Subject: [PATCH 49/54] fix: cast mask to solver data type in pgm
 ConvCnstrMODMask

---
 sporco/pgm/ccmod.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sporco/pgm/ccmod.py b/sporco/pgm/ccmod.py
index 903977c..9414aef 100644
--- a/sporco/pgm/ccmod.py
+++ b/sporco/pgm/ccmod.py
@@ -541,6 +541,7 @@ class ConvCnstrMODMask(ConvCnstrMOD):
             self.W = W
 
         super(ConvCnstrMODMask, self).__init__(Z, S, dsz, opt, dimK, dimN)
+        self.W = np.asarray(self.W, dtype=self.dtype)
 
         # Create byte aligned arrays for FFT calls
         self.WRy = empty_aligned(self.S.shape, dtype=self.dtype)
-- 
2.43.0


From a40e096b8f9ba9c16f81cbed65b5472227a77764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 50/54] fix: data type of zero arrays in prox_dl1l2

---
 sporco/prox/_dl1l2.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sporco/prox/_dl1l2.py b/sporco/prox/_dl1l2.py
index 7a0fb64..2ad4a54 100644
--- a/sporco/prox/_dl1l2.py
+++ b/sporco/prox/_dl1l2.py
@@ -79,6 +79,7 @@ def prox_dl1l2(v, alpha, beta=1.0, axis=None):
     """
 
     va = np.abs(v)
+    dtype = np.result_type(v.dtype, np.float32)
     if axis is None:
         vamx = np.max(va)
         if vamx > 0:
@@ -86,20 +87,20 @@ def prox_dl1l2(v, alpha, beta=1.0, axis=None):
                 u = np.maximum(va - alpha, 0) * np.sign(v)
                 u *= (norm_l2(u) + alpha * beta) / norm_l2(u)
             else:
-                u = np.zeros(v.shape)
+                u = np.zeros(v.shape, dtype=dtype)
                 if vamx >= (1 - beta) * alpha:
                     idx = va.ravel().argmax()
                     u.ravel()[idx] = (va.ravel()[idx] + (beta - 1) * alpha) * \
                                      np.sign(v.ravel()[idx])
         else:
-            u = np.zeros(v.shape)
+            u = np.zeros(v.shape, dtype=dtype)
     else:
         vamx = np.max(va, axis=axis, keepdims=True)
         u1 = np.maximum(va - alpha, 0) * np.sign(v)
         u1l2 = norm_l2(u1, axis=axis)
         u1 *= 1.0 + np.divide(alpha * beta, u1l2, out=np.zeros_like(u1l2),
                               where=(u1l2 != 0))
-        u2 = np.zeros(v.shape)
+        u2 = np.zeros(v.shape, dtype=dtype)
         idx = np.expand_dims(va.argmax(axis=axis), axis=axis)
         vsgn = np.sign(np.take_along_axis(v, idx, axis=axis))
         np.put_along_axis(u2, idx, (vamx + (beta - 1) * alpha) * vsgn,
-- 
2.43.0


From d15bab1e6499d95c28fce76cdd2d1079f3bd8d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 51/54] fix: compute solvemdbi_rsm in the data type of its
 input

---
 sporco/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/linalg.py b/sporco/linalg.py
index 930f508..ef3401a 100644
--- a/sporco/linalg.py
+++ b/sporco/linalg.py
@@ -496,8 +496,8 @@ def solvemdbi_rsm(ah, rho, b, axisK, dimN=2):
     M = ah.shape[axisM]
     K = ah.shape[axisK]
     a = np.conj(ah)
-    Ainv = np.ones(ah.shape[0:dimN] + (1,)*4) * \
-        np.reshape(np.eye(M, M) / rho, (1,)*(dimN + 2) + (M, M))
+    Ainv = np.ones(ah.shape[0:dimN] + (1,)*4, dtype=ah.dtype) * \
+        np.reshape(np.eye(M, M, dtype=ah.dtype) / rho, (1,)*(dimN + 2) + (M, M))
 
     for k in range(0, K):
         slck = slcnc + (slice(k, k + 1),) + (slice(None), np.newaxis,)
-- 
2.43.0


From b9ceb2d4adaa1460e4dc14a2eb5ae0d700739f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:07 +0000
Subject: [PATCH 52/54] fix: result data type of prox_l1 with a Python scalar
 threshold

---
 sporco/prox/_lp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/prox/_lp.py b/sporco/prox/_lp.py
index 4899f59..7a4a8bc 100644
--- a/sporco/prox/_lp.py
+++ b/sporco/prox/_lp.py
@@ -176,7 +176,7 @@ def prox_l1(v, alpha):
             return ne.evaluate(
                 'where(abs(v)-alpha > 0, where(v >= 0, 1, -1) * '
                 '(abs(v)-alpha), 0)'
-            )
+            ).astype(np.result_type(v, alpha), copy=False)
         else:
             return np.sign(v) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
     else:
-- 
2.43.0


From 8ae99e9afe7cb394e79b396c44bcf8d8a0c64b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:33 +0000
Subject: [PATCH 53/54] fix: accept documented mask parameter in
 ConvProdDictL1L1GrdJoint

---
 sporco/admm/pdcsc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index c350bc6..01107bd 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -653,7 +653,7 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
                      u('Regℓ21'): 'RegL21', u('Regℓ2∇'): 'RegGrad'}
 
 
-    def __init__(self, D, B, S, lmbda, mu=0.0, opt=None, dimK=None,
+    def __init__(self, D, B, S, lmbda, mu=0.0, W=None, opt=None, dimK=None,
                  dimN=2):
         """
         Parameters
@@ -685,7 +685,7 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
             opt = ConvProdDictL1L1GrdJoint.Options()
 
         super(ConvProdDictL1L1GrdJoint, self).__init__(D, B, S, lmbda, mu,
-                                            opt=opt, dimK=dimK, dimN=dimN)
+                                       W=W, opt=opt, dimK=dimK, dimN=dimN)
         self.wl21 = np.asarray(opt['L21Weight'], dtype=self.dtype)
 
 
-- 
2.43.0


From 0950f1bc596ea5487556d5f62008dd6dc4a525af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:52 +0000
Subject: [PATCH 54/54] fix: documented names and defaults of parameters

---
 sporco/fft.py           |  4 ++--
 sporco/linalg.py        | 14 +++++++-------
 sporco/prox/_nuclear.py |  2 +-
 sporco/signal.py        |  2 +-
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/sporco/fft.py b/sporco/fft.py
index ab1ed28..c8c3fac 100644
--- a/sporco/fft.py
+++ b/sporco/fft.py
@@ -325,7 +325,7 @@ def dctii(x, axes=None):
 
     Parameters
     ----------
-    a : array_like
+    x : array_like
       Input array
     axes : sequence of ints, optional (default None)
       Axes over which to compute the DCT-II.
@@ -354,7 +354,7 @@ def idctii(x, axes=None):
 
     Parameters
     ----------
-    a : array_like
+    x : array_like
       Input array
     axes : sequence of ints, optional (default None)
       Axes over which to compute the inverse DCT-II.
diff --git a/sporco/linalg.py b/sporco/linalg.py
index ef3401a..026f6d7 100644
--- a/sporco/linalg.py
+++ b/sporco/linalg.py
@@ -592,7 +592,7 @@ def lu_factor(A, rho, check_finite=True):
       Array :math:`A`
     rho : float
       Scalar :math:`\rho`
-    check_finite : bool, optional (default False)
+    check_finite : bool, optional (default True)
       Flag indicating whether the input array should be checked for Inf
       and NaN values
 
@@ -639,7 +639,7 @@ def lu_solve_ATAI(A, rho, b, lu, piv, check_finite=True):
     piv : array_like
       Pivot indices representing the permutation matrix P, as returned by
       :func:`scipy.linalg.lu_factor`
-    check_finite : bool, optional (default False)
+    check_finite : bool, optional (default True)
       Flag indicating whether the input array should be checked for Inf
       and NaN values
 
@@ -677,7 +677,7 @@ def lu_solve_AATI(A, rho, b, lu, piv, check_finite=True):
     piv : array_like
       Pivot indices representing the permutation matrix P, as returned by
       :func:`scipy.linalg.lu_factor`
-    check_finite : bool, optional (default False)
+    check_finite : bool, optional (default True)
       Flag indicating whether the input array should be checked for Inf
       and NaN values
 
@@ -710,7 +710,7 @@ def cho_factor(A, rho, lower=False, check_finite=True):
     lower : bool, optional (default False)
       Flag indicating whether lower or upper triangular factors are
       computed
-    check_finite : bool, optional (default False)
+    check_finite : bool, optional (default True)
       Flag indicating whether the input array should be checked for Inf
       and NaN values
 
@@ -756,7 +756,7 @@ def cho_solve_ATAI(A, rho, b, c, lwr=False, check_finite=True):
     lwr : bool, optional (default False)
       Flag indicating whether lower or upper triangular factors are
       computed
-    check_finite : bool, optional (default False)
+    check_finite : bool, optional (default True)
       Flag indicating whether the input array should be checked for Inf
       and NaN values
 
@@ -794,7 +794,7 @@ def cho_solve_AATI(A, rho, b, c, lwr=False, check_finite=True):
     lwr : bool, optional (default False)
       Flag indicating whether lower or upper triangular factors are
       computed
-    check_finite : bool, optional (default False)
+    check_finite : bool, optional (default True)
       Flag indicating whether the input array should be checked for Inf
       and NaN values
 
@@ -919,7 +919,7 @@ def pca(U, centre=False):
     U : array_like
       2D data array with rows corresponding to different variables and
       columns corresponding to different observations
-    center : bool, optional (default False)
+    centre : bool, optional (default False)
       Flag indicating whether to centre data
 
     Returns
diff --git a/sporco/prox/_nuclear.py b/sporco/prox/_nuclear.py
index b33179e..4e00121 100644
--- a/sporco/prox/_nuclear.py
+++ b/sporco/prox/_nuclear.py
@@ -49,7 +49,7 @@ def prox_nuclear(V, alpha):
 
     Parameters
     ----------
-    v : array_like
+    V : array_like
       Input array :math:`V`
     alpha : float
       Parameter :math:`\alpha`
diff --git a/sporco/signal.py b/sporco/signal.py
index c88cac6..9b9e439 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -72,7 +72,7 @@ def rndmask(shp, frc, dtype=None):
 
     Parameters
     ----------
-    s : tuple
+    shp : tuple
       Mask array shape
     frc : float
       Desired fraction of zero pixels
-- 
2.43.0

