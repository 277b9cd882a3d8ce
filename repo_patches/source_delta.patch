From b588a6772c022e72c6396d066e470723124467b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 01/47] fix: iterate in a dtype that can hold the solution

The vectors updated in place took the dtype of the right-hand side: a complex
operator with a real right-hand side raised a casting error, and integer data
were rounded down by integer divisions and in-place updates.
---
 pykrylov/bicgstab/bicgstab.py | 4 ++--
 pykrylov/cg/cg.py             | 4 ++--
 pykrylov/cgs/cgs.py           | 4 ++--
 pykrylov/minres/minres.py     | 2 +-
 pykrylov/tfqmr/tfqmr.py       | 4 ++--
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 447e901..0a86301 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -53,13 +53,13 @@ class BiCGSTAB( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, rhs.dtype, 1.0)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n)
 
         # Initial residual is the fixed vector
-        r0 = rhs
+        r0 = rhs.astype(result_type)
         if guess_supplied:
             r0 = rhs - self.op * x
             nMatvec += 1
diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index d733de6..956a81f 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -72,7 +72,7 @@ class CG( KrylovMethod ):
                 return
 
         # Initial guess
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, rhs.dtype, 1.0)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
 
@@ -82,7 +82,7 @@ class CG( KrylovMethod ):
         matvec_max = kwargs.get('matvec_max', 2*n)
 
         # Initial residual vector
-        r = -rhs
+        r = -rhs.astype(result_type)
         if guess_supplied:
             r += self.op * x
             nMatvec += 1
diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index a878699..7ae44a0 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -50,12 +50,12 @@ class CGS( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, rhs.dtype, 1.0)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n)
 
-        r0 = rhs  # Fixed vector throughout
+        r0 = rhs.astype(result_type)  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
 
diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index ab9bb5d..2515633 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -132,7 +132,7 @@ class Minres(KrylovMethod):
         self.dir_errors_window = []  # Direct error estimates.
         self.iterates = []
 
-        result_type = np.result_type(A.dtype, b.dtype)
+        result_type = np.result_type(A.dtype, b.dtype, 1.0)
         x = zeros(n, dtype=result_type)
         xNrgNorm2 = 0.0          # Squared energy norm of final solution.
         dErr = zeros(window)     # Truncated direct error terms.
diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index 5f2e55d..18d8397 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -49,12 +49,12 @@ class TFQMR( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, rhs.dtype, 1.0)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n)
 
-        r0 = rhs  # Fixed vector throughout
+        r0 = rhs.astype(result_type)  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
 
-- 
2.43.0


From 7189e7685e3c63c0a410b31ea002f72d1fb4da31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 02/47] fix: search along the preconditioned residual in CG

The search direction was updated with the residual itself, so preconditioned
CG converged to a wrong point or diverged.
---
 pykrylov/cg/cg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 956a81f..3736a5b 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -101,7 +101,7 @@ class CG( KrylovMethod ):
         self.residHistory.append(self.residNorm0)
         threshold = max(self.abstol, self.reltol * self.residNorm0)
 
-        p = -r   # Initial search direction (copy not to overwrite rhs if x=0)
+        p = -y   # Initial search direction (copy not to overwrite rhs if x=0)
 
         hdr_fmt = '%6s  %7s  %8s'
         hdr = hdr_fmt % ('Matvec', 'Resid', 'Curv')
@@ -148,7 +148,7 @@ class CG( KrylovMethod ):
             # Update search direction
             beta = ry_next/ry
             p *= beta
-            p -= r
+            p -= y
 
             ry = ry_next
             residNorm = np.abs(np.sqrt(ry))
-- 
2.43.0


From 9c88ecc67841d5bb4b0589681395b85e529105a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 03/47] fix: publish a result when the CG symmetry check fails

solve() returned without setting x, converged, residNorm or nMatvec, leaving
those of a previous solve in place.
---
 pykrylov/cg/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 3736a5b..39e2163 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -69,7 +69,7 @@ class CG( KrylovMethod ):
         if check_sym:
             if not check_symmetric(self.op):
                 self.logger.error('Coefficient operator is not symmetric')
-                return
+                definite = False
 
         # Initial guess
         result_type = np.result_type(self.op.dtype, rhs.dtype, 1.0)
-- 
2.43.0


From 245aa232d4b0323d3950d05408a9dcd303b1dcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 04/47] fix: reset the histories at the start of each CG solve

---
 pykrylov/cg/cg.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 39e2163..07deff6 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -66,6 +66,12 @@ class CG( KrylovMethod ):
         store_resids = kwargs.get('store_resids', False)
         store_iterates = kwargs.get('store_iterates', False)
 
+        # Forget about previous solves.
+        self.residHistory = []
+        self.resids = []
+        self.iterates = []
+        self.infiniteDescent = None
+
         if check_sym:
             if not check_symmetric(self.op):
                 self.logger.error('Coefficient operator is not symmetric')
-- 
2.43.0


From 1ee50651833f478c689bad152cfbd8c36cac761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 05/47] fix: count the product with the initial guess in CGS
 and TFQMR

---
 pykrylov/cgs/cgs.py     | 1 +
 pykrylov/tfqmr/tfqmr.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index 7ae44a0..b8a4235 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -58,6 +58,7 @@ class CGS( KrylovMethod ):
         r0 = rhs.astype(result_type)  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
+            nMatvec += 1
 
         rho = np.dot(r0,r0)
         residNorm = np.abs(np.sqrt(rho))
diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index 18d8397..a1bddf6 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -57,6 +57,7 @@ class TFQMR( KrylovMethod ):
         r0 = rhs.astype(result_type)  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
+            nMatvec += 1
 
         rho = np.dot(r0,r0)
         residNorm = np.abs(np.sqrt(rho))
-- 
2.43.0


From 3b1998b6f4f86e508f54c85608551b97ef464027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 06/47] fix: let TFQMR return when there is nothing to iterate
 on

With a zero right-hand side, an exact guess or no product budget, m was
unbound when the convergence flag was computed.
---
 pykrylov/tfqmr/tfqmr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index a1bddf6..4ef3153 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -47,6 +47,7 @@ class TFQMR( KrylovMethod ):
         """
         n = rhs.shape[0]
         nMatvec = 0
+        m = 0
 
         # Initial guess is zero unless one is supplied
         result_type = np.result_type(self.op.dtype, rhs.dtype, 1.0)
@@ -154,7 +155,7 @@ class TFQMR( KrylovMethod ):
             self.logger.info('%5d  %8.2e' % (nMatvec, residNorm))
 
 
-        self.converged = residNorm * np.sqrt(m+1) < threshold
+        self.converged = residNorm * np.sqrt(m+1) <= threshold
         self.nMatvec = nMatvec
         self.bestSolution = self.x = x
         self.residNorm = residNorm
-- 
2.43.0


From 4a677a71c8890e7f8c2bad325e881c52e8a6ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 07/47] fix: return the point whose residual Bi-CGSTAB reports

When the product budget ran out in the middle of an iteration, the residual
norm was that of a half step which had not been added to the solution.
---
 pykrylov/bicgstab/bicgstab.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 0a86301..b78c12d 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -114,6 +114,7 @@ class BiCGSTAB( KrylovMethod ):
                 continue
 
             if nMatvec >= matvec_max:
+                x += alpha * q
                 finished = True
                 continue
 
-- 
2.43.0


From c0a07cb464aa59a9fd814ca5334655d69134a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:17 +0000
Subject: [PATCH 08/47] fix: reset the residual history at the start of each
 MINRES solve

---
 pykrylov/minres/minres.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 2515633..be49bbf 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -131,6 +131,8 @@ class Minres(KrylovMethod):
 
         self.dir_errors_window = []  # Direct error estimates.
         self.iterates = []
+        self.residHistory = []
+        self.resids = []
 
         result_type = np.result_type(A.dtype, b.dtype, 1.0)
         x = zeros(n, dtype=result_type)
-- 
2.43.0


From 27858ebcb9387290b8d1e6b6de1dd82011f2144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:17 +0000
Subject: [PATCH 09/47] fix: use the preconditioner given to the MINRES
 constructor

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index be49bbf..57e6a0e 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -118,7 +118,7 @@ class Minres(KrylovMethod):
         n = b.shape[0]
 
         # Read keyword arguments
-        precon = kwargs.get('precon', None)
+        precon = kwargs.get('precon', self.precon)
         shift  = kwargs.get('shift',  0.0)
         show   = kwargs.get('show',   True)
         check  = kwargs.get('check',  True)
-- 
2.43.0


From edab657ac54c0d414258b0eb0764a47dabeb5c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:17 +0000
Subject: [PATCH 10/47] fix: keep MINRES quiet when show is False

---
 pykrylov/minres/minres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 57e6a0e..47492fa 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -195,7 +195,7 @@ class Minres(KrylovMethod):
         if check and (precon is not None):
             if not check_symmetric(precon):
                 istop = 8
-                show = True
+                self.show = True
                 done = True
 
         # -------------------------------------------------------------------
@@ -382,7 +382,7 @@ class Minres(KrylovMethod):
 
                 if istop > 0: break
 
-                if (itn % 10)==0: print ' '
+                if show and (itn % 10)==0: print ' '
 
         # Display final status.
 
-- 
2.43.0


From d91e163a9fc65341d6e0b5c339da8432eb66683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:17 +0000
Subject: [PATCH 11/47] fix: stop MINRES when the Lanczos process ends at the
 first step

With A = I (or any rhs that is an eigenvector) the exact solution was found,
the iteration went on and divided by zero, and the solution returned was NaN.
---
 pykrylov/minres/minres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 47492fa..5eab586 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -380,7 +380,7 @@ class Minres(KrylovMethod):
                     str3 = ' %8.1e %8.1e %8.1e' % (Anorm, Acond, gbar/Anorm)
                     print str1 + str2 + str3
 
-                if istop > 0: break
+                if istop != 0: break
 
                 if show and (itn % 10)==0: print ' '
 
@@ -394,7 +394,7 @@ class Minres(KrylovMethod):
             print last+' Arnorm  =  %12.4e' % Arnorm
             print last+self.msg[istop+1]
 
-        self.converged = istop in [1,2,3,4,10]
+        self.converged = istop in [-1,1,2,3,4,10] or beta1 == 0
         if istop == 10: self.status = 'direct error small'
         self.bestSolution = self.x = x
         self.istop = istop
-- 
2.43.0


From 952ba1ef515e7007b00ff619ac14bba9e6b9f70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:17 +0000
Subject: [PATCH 12/47] fix: set the MINRES status at every exit

The status was only set when the direct error test stopped the iteration, and
otherwise missing or that of an earlier solve.
---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 5eab586..9fe96e6 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -395,7 +395,7 @@ class Minres(KrylovMethod):
             print last+self.msg[istop+1]
 
         self.converged = istop in [-1,1,2,3,4,10] or beta1 == 0
-        if istop == 10: self.status = 'direct error small'
+        self.status = 'direct error small' if istop == 10 else self.msg[istop+1].strip()
         self.bestSolution = self.x = x
         self.istop = istop
         self.itn = itn
-- 
2.43.0


From cd9d538413055e1d5c479d406c6d3d4186857160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:17 +0000
Subject: [PATCH 13/47] fix: let SYMMLQ run

solve() called a method that does not exist for any nonzero right-hand side,
and used variables that were never set when there was nothing to iterate on.
---
 pykrylov/symmlq/symmlq.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index a756d45..ae20805 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -118,6 +118,8 @@ class Symmlq(KrylovMethod) :
         istop  = 0 ; ynorm  = 0 ; w = np.zeros(n) ; acond = 0
         itn    = 0 ; xnorm  = 0 ; x = np.zeros(n) ; done=False
         anorm  = 0 ; rnorm  = 0 ; v = np.zeros(n)
+        cgnorm = 0 ; lqnorm = 0 ; qrnorm = 0
+        x1cg   = 0 ; bstep  = 0
 
         if store_iterates:
             self.iterates.append(x.copy())
@@ -159,7 +161,7 @@ class Symmlq(KrylovMethod) :
             s     = 1.0 / beta1
             v     = s * y
 
-            y = self.matvec(v) ; nMatvec += 1
+            y = self.op * v ; nMatvec += 1
             if check:
                 r2 = self.op * y  # Do not count this matrix-vector product
                 s = np.dot(y,y)
@@ -223,7 +225,7 @@ class Symmlq(KrylovMethod) :
         self.logger.info(head1 + head2)
 
         str1 = '%6g %12.5e %10.3e' % (itn, x1cg, cgnorm)
-        str2 = ' %10.3e  %8.1e' %    (qrnorm, bstep/beta1)
+        str2 = ' %10.3e  %8.1e' %    (qrnorm, bstep)
         self.logger.info(str1 + str2)
 
         # ------------------------------------------------------------------
@@ -366,7 +368,7 @@ class Symmlq(KrylovMethod) :
 
         # Add the step along b.
 
-        bstep  = bstep / beta1
+        if beta1 > 0: bstep  = bstep / beta1
         if self.precon is not None:
             y = self.precon * rhs
         else:
-- 
2.43.0


From 1e1f888410ce1437cc2fa969482622920f23f2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:17 +0000
Subject: [PATCH 14/47] fix: report how SYMMLQ ended

The stop code, the convergence flag and the initial residual norm were never
set, and the iterates of earlier solves were kept.
---
 pykrylov/symmlq/symmlq.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index ae20805..498a0e5 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -93,6 +93,8 @@ class Symmlq(KrylovMethod) :
         eps = machine_epsilon()
         store_iterates = kwargs.get('store_iterates', False)
 
+        self.iterates = []
+
         first = 'Enter SYMMLQ.   '
         last  = 'Exit  SYMMLQ.   '
         space = ' '
@@ -351,6 +353,8 @@ class Symmlq(KrylovMethod) :
                 rhs2   =       -  epsln * z
             # end while
 
+            if istop == 0 or itn == 0: istop = 5
+
         # ------------------------------------------------------------------
         # End of main iteration loop.
         # ------------------------------------------------------------------
@@ -395,8 +399,11 @@ class Symmlq(KrylovMethod) :
         self.logger.info(last + fmt % (rnorm, xnorm))
         self.logger.info(last + msg[istop])
 
+        self.istop = istop
+        self.converged = istop in [-1,0,1,2]
         self.nMatvec = nMatvec
         self.bestSolution = x ; self.solutionNorm = xnorm
         self.x = self.bestSolution ; self.xNorm = xnorm
+        self.residNorm0 = np.linalg.norm(rhs)
         self.residNorm = rnorm
         self.acond = acond ; self.anorm = anorm
-- 
2.43.0


From 205f342c0a91be8f95dc9a71aa890ff19fc6d535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:50 +0000
Subject: [PATCH 15/47] fix: accept wantvar=True in LSQR and CRAIG

---
 pykrylov/lls/craig.py | 2 +-
 pykrylov/lls/lsqr.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 22592ae..4c1ccd5 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -176,7 +176,7 @@ class CRAIGFramework(KrylovMethod):
         if itnlim == 0: itnlim = 3*n
 
         if wantvar:
-            var = zeros(n,1)
+            var = zeros(n)
         else:
             var = None
 
diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 2cb1297..26282bb 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -152,7 +152,7 @@ class LSQRFramework(KrylovMethod):
         if itnlim == 0: itnlim = 3*n
 
         if wantvar:
-            var = zeros(n,1)
+            var = zeros(n)
         else:
             var = None
 
-- 
2.43.0


From d2c17656a00adcdbfeb1e92cf780c342c7a2f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:50 +0000
Subject: [PATCH 16/47] fix: let conlim take part in the stopping tests

LSQR stored its inverse in an attribute nobody read, and an integer conlim was
rounded down to zero in LSMR.
---
 pykrylov/lls/craig.py | 2 +-
 pykrylov/lls/lsmr.py  | 2 +-
 pykrylov/lls/lsqr.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 4c1ccd5..7a1f0c6 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -184,7 +184,7 @@ class CRAIGFramework(KrylovMethod):
 
         itn = istop = 0
         ctol = 0.0
-        if conlim > 0.0: self.ctol = 1.0/conlim
+        if conlim > 0.0: ctol = 1.0/conlim
         #Anorm = Acond = 0.
         #z = xnorm = xxnorm = ddnorm = res2 = 0.
         #cs2 = -1. ; sn2 = 0.
diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 05d1c59..681664a 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -275,7 +275,7 @@ class LSMRFramework(KrylovMethod):
         normb  = beta
         istop  = 0
         ctol   = 0
-        if conlim > 0: ctol = 1/conlim
+        if conlim > 0: ctol = 1.0/conlim
         normr  = beta
 
         # Reverse the order here from the original matlab code because
diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 26282bb..c591cb1 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -160,7 +160,7 @@ class LSQRFramework(KrylovMethod):
 
         itn = istop = 0
         ctol = 0.0
-        if conlim > 0.0: self.ctol = 1.0/conlim
+        if conlim > 0.0: ctol = 1.0/conlim
         Anorm = Acond = 0.
         z = xnorm = xxnorm = ddnorm = res2 = 0.
         cs2 = -1. ; sn2 = 0.
-- 
2.43.0


From 6cf4a86bed209c3d0bd34794ed57cbec61a4fc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:50 +0000
Subject: [PATCH 17/47] fix: set the convergence flag in LSQR, CRAIG and
 CRAIG-MR

---
 pykrylov/lls/craig.py   | 2 +-
 pykrylov/lls/craigmr.py | 2 +-
 pykrylov/lls/lsqr.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 7a1f0c6..fd696cc 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -503,7 +503,7 @@ class CRAIGFramework(KrylovMethod):
         if istop in [3,6]: self.status = 'ill-conditioned operator'
         if istop == 7: self.status = 'max iterations'
         if istop == 8: self.status = 'direct error small'
-        self.optimal = istop in [1,2,4,5,8]
+        self.optimal = self.converged = istop in [1,2,4,5,8]
         self.x = self.bestSolution = x
         self.r = r
         self.istop = istop
diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 12ecbed..f558526 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -234,7 +234,7 @@ class CRAIGMRFramework(KrylovMethod):
         if istop in [3,6]: self.status = 'ill-conditioned operator'
         if istop == 7: self.status = 'max iterations'
         if istop == 8: self.status = 'direct error small'
-        self.optimal = istop in [1,2,4,5,8]
+        self.optimal = self.converged = istop in [1,2,4,5,8]
         self.x = self.bestSolution = x
         self.istop = istop
         self.itn = itn
diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index c591cb1..3a4cc50 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -438,7 +438,7 @@ class LSQRFramework(KrylovMethod):
         if istop in [3,6]: self.status = 'ill-conditioned operator'
         if istop == 7: self.status = 'max iterations'
         if istop == 8: self.status = 'direct error small'
-        self.optimal = istop in [1,2,4,5,8]
+        self.optimal = self.converged = istop in [1,2,4,5,8]
         self.x = self.bestSolution = x
         self.istop = istop
         self.itn = itn
-- 
2.43.0


From 21a6c62a345d44e09ae7b8cb8bd9386983524d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:50 +0000
Subject: [PATCH 18/47] fix: let CRAIG return for a zero right-hand side

---
 pykrylov/lls/craig.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index fd696cc..b190aea 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -215,6 +215,7 @@ class CRAIGFramework(KrylovMethod):
         else:
             u = Mu
 
+        v = zeros(n)
         alpha = 0.
         beta = sqrt(dot(u,Mu))       # norm(u)
         if beta > 0:
@@ -264,6 +265,7 @@ class CRAIGFramework(KrylovMethod):
         #rnorm  = zeta * zeta    # = ||b - Ax||^2_M + \|x\|^2_N.
         r1norm = xi * xi        # = ||b - Ax||^2_M.
         r2norm = rnorm
+        Arnorm = alpha * beta
 
         head1  = '   Itn      x(1)       r1norm     r2norm '
         head2  = ' Compatible   LS      Norm A   Cond A'
-- 
2.43.0


From 4d2c02a0764273824027926b0146a1e22a65444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:50 +0000
Subject: [PATCH 19/47] fix: keep CRAIG-MR quiet when show is False

---
 pykrylov/lls/craigmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index f558526..4e3f4f2 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -187,7 +187,7 @@ class CRAIGMRFramework(KrylovMethod):
             zeta     = c_hat * zeta_hat
             zeta_hat = s_hat * zeta_hat
             xNrgNorm2 += zeta * zeta
-            print itn, xNrgNorm2
+            if show: print itn, xNrgNorm2
             d = (u - beta_hat * d) / alpha_hat
             x += zeta * dbar
 
-- 
2.43.0


From 11bd165e14427f48c8189aff5cf241b9500d63c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:50 +0000
Subject: [PATCH 20/47] fix: publish the results of LSMR

Only x was stored, and nothing at all when the solution was zero.
---
 pykrylov/lls/lsmr.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 681664a..6e16d85 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -284,6 +284,7 @@ class LSMRFramework(KrylovMethod):
         if normar == 0:
             if show:
                 print msg[0]
+            self._publish(x, istop, itn, normr, normar, normA, condA, normx)
             return x, istop, itn, normr, normar, normA, condA, normx
 
         if show:
@@ -488,10 +489,29 @@ class LSMRFramework(KrylovMethod):
             print str3, str4
             print 'Estimated energy norm of x: %7.1e' % sqrt(xNrgNorm2)
 
-        self.x = x
+        self._publish(x, istop, itn, normr, normar, normA, condA, normx)
         return x, istop, itn, normr, normar, normA, condA, normx
 
 
+    def _publish(self, x, istop, itn, normr, normar, normA, condA, normx):
+        "Store the results of a solve in the members of this object."
+        if istop == 0: self.status = 'solution is zero'
+        if istop in [1,2,4,5]: self.status = 'residual small'
+        if istop in [3,6]: self.status = 'ill-conditioned operator'
+        if istop == 7: self.status = 'max iterations'
+        if istop == 8: self.status = 'direct error small'
+        self.optimal = self.converged = istop in [1,2,4,5,8]
+        self.x = self.bestSolution = x
+        self.istop = istop
+        self.itn = itn
+        self.nMatvec = 2*itn
+        self.r1norm = self.r2norm = self.residNorm = normr
+        self.Arnorm = normar
+        self.Anorm = normA
+        self.Acond = condA
+        self.xnorm = normx
+
+
 def sign(a):
     if a < 0: return -1
     return 1
-- 
2.43.0


From b857c7ad49af84e13aab96ee90144f9bb00c99db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:50 +0000
Subject: [PATCH 21/47] fix: let LSMR return when the residual vanishes

---
 pykrylov/lls/lsmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 6e16d85..722fb28 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -21,7 +21,7 @@ __docformat__ = 'restructuredtext'
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot
+from numpy import zeros, dot, inf
 from numpy.linalg import norm
 from math import sqrt
 
@@ -421,7 +421,7 @@ class LSMRFramework(KrylovMethod):
             # some of which will be small near a solution.
 
             test1   = normr /normb
-            test2   = normar/(normA*normr)
+            test2   = normar/(normA*normr) if normA*normr != 0 else inf
             test3   =      1/condA
             t1      =  test1/(1 + normA*normx/normb)
             rtol    = btol + atol*normA*normx/normb
-- 
2.43.0


From e95b9bead92b7c1711cf0fc435f7a49b759c776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 22/47] fix: accept None for the LSMR options documented to
 allow it

---
 pykrylov/lls/lsmr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 722fb28..1b244c2 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -192,6 +192,10 @@ class LSMRFramework(KrylovMethod):
         minDim = min([m, n])
 
         if itnlim is None: itnlim = minDim
+        if damp is None: damp = 0.0
+        if atol is None: atol = 1.0e-6
+        if btol is None: btol = 1.0e-6
+        if conlim is None: conlim = 1.0e+8
 
         if show:
             print ' '
-- 
2.43.0


From a480e76c71f7326525fea2ef3ed1f91db0a4faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 23/47] fix: divide operators by integers without rounding the
 quotient

---
 pykrylov/linop/linop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index a7d8155..937fbc6 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -431,7 +431,7 @@ class LinearOperator(BaseLinearOperator):
     def __div__(self, other):
         if not np.isscalar(other):
             raise ValueError('Cannot divide')
-        return self * (1 / other)
+        return self * (1. / other)
 
     def __truediv__(self, other):
         if not np.isscalar(other):
-- 
2.43.0


From b42254ca3ca0044de79a345d7d3569d552b1ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 24/47] fix: infer the shape of a coordinate operator from
 zero-based indices

---
 pykrylov/linop/linop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 937fbc6..a50bcba 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -643,8 +643,8 @@ def CoordLinearOperator(vals, rows, cols,
     `rows` and `cols`. If `symmetric` is `True`, then `vals`, `rows` and
     `cols` are assumed to only represent one triangle of the operator.
     """
-    if nargin == 0: nargin = cols.max()
-    if nargout == 0: nargout = rows.max()
+    if nargin == 0: nargin = cols.max() + 1
+    if nargout == 0: nargout = rows.max() + 1
 
     def matvec(x):
       if x.shape != (nargin,):
-- 
2.43.0


From bc361f8b87b0a088fe5e503ab1c2c34216e07a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 25/47] fix: do not assume that a complex symmetric array is
 hermitian

---
 pykrylov/linop/linop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index a50bcba..03818ab 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -723,7 +723,8 @@ def PysparseLinearOperator(A):
 def linop_from_ndarray(A, symmetric=False, **kwargs):
     "Return a linear operator from a Numpy `ndarray`."
 
-    hermitian = kwargs.get('hermitian', symmetric)
+    hermitian = kwargs.get('hermitian',
+                           symmetric and A.dtype not in complex_types)
 
     if A.dtype in complex_types:
         return LinearOperator(A.shape[1], A.shape[0],
-- 
2.43.0


From 1e598def44be829bb29aad0ede46fc7ce4af6357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 26/47] fix: multiply by the diagonal the operator holds

The products used the array of the caller, not the copy made of it.
---
 pykrylov/linop/linop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 03818ab..1c082f4 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -492,7 +492,7 @@ class DiagonalOperator(LinearOperator):
         diag = np.asarray(diag)
         if diag.ndim != 1:
             raise ValueError('Input must be 1-d array')
-        self.__diag = diag.copy()
+        self.__diag = diag = diag.copy()
 
         super(DiagonalOperator, self).__init__(diag.shape[0], diag.shape[0],
                                                symmetric=True,
-- 
2.43.0


From 1fa4b9052ea25268e6b88d042e13e4268f3593c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 27/47] fix: keep the dtype of an operator raised to the power
 zero

---
 pykrylov/linop/linop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 1c082f4..d1d340b 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -446,7 +446,7 @@ class LinearOperator(BaseLinearOperator):
         if self.nargin != self.nargout:
             raise ShapeError('Can only raise square operators to a power')
         if other == 0:
-            return IdentityOperator(self.nargin)
+            return IdentityOperator(self.nargin, dtype=self.dtype)
         if other == 1:
             return self
         return self * self**(other-1)
-- 
2.43.0


From 847de21d1c66aa0a14106977011456663724ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 28/47] fix: ignore redundant keywords of identity and zero
 operators

---
 pykrylov/linop/linop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index d1d340b..d327377 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -460,6 +460,8 @@ class IdentityOperator(LinearOperator):
     def __init__(self, nargin, **kwargs):
         if 'symmetric' in kwargs:
             kwargs.pop('symmetric')
+        if 'hermitian' in kwargs:
+            kwargs.pop('hermitian')
         if 'matvec' in kwargs:
             kwargs.pop('matvec')
 
@@ -526,6 +528,8 @@ class ZeroOperator(LinearOperator):
             kwargs.pop('matvec')
         if 'matvec_transp' in kwargs:
             kwargs.pop('matvec_transp')
+        if 'symmetric' in kwargs:
+            kwargs.pop('symmetric')
 
         def matvec(x):
             if x.shape != (nargin,):
-- 
2.43.0


From 1a3668ed4b597e72c6868dc15447efec8f66b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 29/47] fix: leave the lists of blocks given to
 BlockLinearOperator alone

Completing a symmetric operator inserted blocks in the rows of the caller.
---
 pykrylov/linop/blkop.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 41511ae..9b441e9 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -1,6 +1,5 @@
 from pykrylov.linop import BaseLinearOperator, LinearOperator
 from pykrylov.linop import ShapeError, null_log
-from copy import copy
 import numpy as np
 import itertools
 
@@ -33,7 +32,7 @@ class BlockLinearOperator(LinearOperator):
                 if hermitian and not block_row[0].hermitian:
                     raise ValueError('Blocks on diagonal must be hermitian.')
 
-            self._blocks = copy(blocks)
+            self._blocks = [list(block_row) for block_row in blocks]
             for i in range(1, nrow):
                 for j in range(i - 1, -1, -1):
                     if symmetric:
@@ -42,7 +41,7 @@ class BlockLinearOperator(LinearOperator):
                         self._blocks[i].insert(0, self._blocks[j][i].H)
 
         else:
-            self._blocks = copy(blocks)
+            self._blocks = [list(block_row) for block_row in blocks]
 
         log = kwargs.get('logger', null_log)
         log.debug('Building new BlockLinearOperator')
@@ -98,7 +97,7 @@ class BlockLinearOperator(LinearOperator):
 
             return y
 
-        flat_blocks = list(itertools.chain(*blocks))
+        flat_blocks = list(itertools.chain(*self._blocks))
         blk_dtypes = [blk.dtype for blk in flat_blocks]
         op_dtype = np.result_type(*blk_dtypes)
 
-- 
2.43.0


From fd8c1b114c8a8519b17f0d6740347306148b8057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 30/47] fix: check the shapes of all blocks of a block operator

Only the first block of each row was compared across rows, and the diagonal
blocks of a symmetric operator were not checked to be square.
---
 pykrylov/linop/blkop.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 9b441e9..17dd5f6 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -31,6 +31,8 @@ class BlockLinearOperator(LinearOperator):
                     raise ValueError('Blocks on diagonal must be symmetric.')
                 if hermitian and not block_row[0].hermitian:
                     raise ValueError('Blocks on diagonal must be hermitian.')
+                if block_row[0].nargin != block_row[0].nargout:
+                    raise ShapeError('Blocks on diagonal must be square.')
 
             self._blocks = [list(block_row) for block_row in blocks]
             for i in range(1, nrow):
@@ -48,9 +50,9 @@ class BlockLinearOperator(LinearOperator):
 
         nargins = [[blk.shape[-1] for blk in row] for row in self._blocks]
         log.debug('nargins = ' + repr(nargins))
-        nargins_by_row = [nargin[0] for nargin in nargins]
-        if min(nargins_by_row) != max(nargins_by_row):
-            raise ShapeError('Inconsistent block shapes')
+        for nargins_in_row in nargins:
+            if nargins_in_row != nargins[0]:
+                raise ShapeError('Inconsistent block shapes')
 
         nargouts = [[blk.shape[0] for blk in row] for row in self._blocks]
         log.debug('nargouts = ' + repr(nargouts))
-- 
2.43.0


From 41434b9cc33e6765d13a2e087d938196845e4554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 31/47] fix: update the transpose and adjoint of a block
 operator on assignment

---
 pykrylov/linop/blkop.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 17dd5f6..9fe728d 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -140,9 +140,10 @@ class BlockLinearOperator(LinearOperator):
                         self._blocks[i][j] = self._blocks[j][i].T
                     else:
                         self._blocks[i][j] = self._blocks[j][i].H
-        else:
-            self._blocksT = map(lambda *row: [blk.T for blk in row], *self._blocks)
-            self._blocksH = map(lambda *row: [blk.H for blk in row], *self._blocks)
+        self._blocksT = map(lambda *row: [blk.T for blk in row], *self._blocks)
+        self._blocksH = map(lambda *row: [blk.H for blk in row], *self._blocks)
+        self.T._blocks = self._blocksT
+        self.H._blocks = self._blocksH
 
     def __contains__(self, op):
         return op in list(itertools.chain(*self.blocks))
-- 
2.43.0


From 6ee5551e0397f9e0fb15de273990b3c4c0b6612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 32/47] fix: let a block-diagonal operator keep its own list of
 blocks

---
 pykrylov/linop/blkop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 9fe728d..0b35185 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -166,7 +166,7 @@ class BlockDiagonalLinearOperator(LinearOperator):
         hermitian = reduce(lambda x, y: x and y,
                            [blk.hermitian for blk in blocks])
 
-        self._blocks = blocks
+        self._blocks = blocks = list(blocks)
 
         log = kwargs.get('logger', null_log)
         log.debug('Building new BlockDiagonalLinearOperator')
-- 
2.43.0


From 0bfc5844b70640e4a8f0c0676ae38da0221c8ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 33/47] fix: transpose block-diagonal operators with
 rectangular blocks

Products with the transpose and adjoint used the shapes of the forward blocks.
---
 pykrylov/linop/blkop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 0b35185..ab91830 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -186,9 +186,9 @@ class BlockDiagonalLinearOperator(LinearOperator):
 
         def blk_matvec(x, blks):
             nx = len(x)
-            nargins = [blk.shape[-1] for blk in blocks]
+            nargins = [blk.shape[-1] for blk in blks]
             nargin = sum(nargins)
-            nargouts = [blk.shape[0] for blk in blocks]
+            nargouts = [blk.shape[0] for blk in blks]
             nargout = sum(nargouts)
             self.logger.debug('Multiplying with a vector of size %d' % nx)
             self.logger.debug('nargin=%d, nargout=%d' % (nargin, nargout))
-- 
2.43.0


From 9ecf420af57841737dcf9d21c909cb387cf358a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 34/47] fix: keep block-diagonal operators consistent on
 assignment

A value that is not a linear operator was stored, and the transposed and
adjoint lists of blocks were left as they were.
---
 pykrylov/linop/blkop.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index ab91830..860af39 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -251,11 +251,14 @@ class BlockDiagonalLinearOperator(LinearOperator):
                     if not isinstance(op, BaseLinearOperator):
                         msg = 'Block operators can only contain linear operators'
                         raise ValueError(msg)
+            else:
+                msg = 'Block operators can only contain linear operators'
+                raise ValueError(msg)
         self._blocks.__setitem__(idx, ops)
-        if not self.symmetric:
-            self._blocksT = [blk.T for blk in self._blocks]
-        if not self.hermitian:
-            self._blocksH = [blk.H for blk in self._blocks]
+        self._blocksT = [blk.T for blk in self._blocks]
+        self._blocksH = [blk.H for blk in self._blocks]
+        self.T._blocks = self._blocksT
+        self.H._blocks = self._blocksH
 
 
 class BlockPreconditioner(BlockLinearOperator):
-- 
2.43.0


From 64308feeddd0fd3bc18d2eaf3eb2c3bc882ca059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:45 +0000
Subject: [PATCH 35/47] fix: list __version__ in __all__ as one name

---
 pykrylov/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/__init__.py b/pykrylov/__init__.py
index f934d05..9e86bf6 100644
--- a/pykrylov/__init__.py
+++ b/pykrylov/__init__.py
@@ -8,7 +8,7 @@ from version import version as __version__
 
 
 __all__ = filter(lambda s: not s.startswith('_'), dir())
-__all__ += '__version__'
+__all__ += ['__version__']
 
 __doc__ += """
 
-- 
2.43.0


From 9d74362aebbe36cc5555b21f5016432d78d65694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:45 +0000
Subject: [PATCH 36/47] fix: leave the global random generator alone in
 operator checks

---
 pykrylov/tools/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pykrylov/tools/utils.py b/pykrylov/tools/utils.py
index f37d678..80d5ead 100644
--- a/pykrylov/tools/utils.py
+++ b/pykrylov/tools/utils.py
@@ -71,9 +71,9 @@ def check_symmetric(op, repeats=10):
     if m != n:
         return False
     eps = machine_epsilon()
-    np.random.seed(1)
+    rng = np.random.RandomState(1)
     for _ in xrange(repeats):
-        x = np.random.random(n)
+        x = rng.random_sample(n)
         w = op * x
         r = op * w
         s = np.dot(w, w)
@@ -95,8 +95,9 @@ def check_positive_definite(op, repeats=10, semi=False):
     m, n = op.shape
     if m != n:
         return False
+    rng = np.random.RandomState()
     for _ in xrange(repeats):
-        v = np.random.random(n)
+        v = rng.random_sample(n)
         w = op * v
         vw = np.dot(v, w)
         eps = machine_epsilon()
-- 
2.43.0


From e7983b551c5f432e032d0a7f1e5704e1a6df78ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:45 +0000
Subject: [PATCH 37/47] fix: let StructuredLBFGSOperator be built and store
 pairs

---
 pykrylov/linop/lbfgs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index f570bf6..54f530b 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -274,7 +274,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
                          done as 'method M3' in the LBFGS paper by Zhou and
                          Nocedal; the scaling factor is s'y/y'y (default: False).
         """
-        super(StructuredLBFGSOperator, self).__init__(self, n, npairs, **kwargs)
+        super(StructuredLBFGSOperator, self).__init__(n, npairs, **kwargs)
         self.yd = np.empty((self.n, self.npairs))
         self.accept_threshold = 1e-8
 
@@ -334,7 +334,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
         | y_k' s_k + (y's s_k' B_k s_k)**.5 | >= 1e-8.
         """
         ys = np.dot(new_s, new_y)
-        Bs = self.matvec(new_s)
+        Bs = self.lbfgs_matvec(new_s)
         ypBs = ys + (ys * np.dot(new_s, Bs))**0.5
 
         if ypBs >= self.accept_threshold:
@@ -346,5 +346,5 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
             self.insert += 1
             self.insert = self.insert % self.npairs
         else:
-            self.log.debug('Rejecting (s,y) pair')
+            self.logger.debug('Rejecting (s,y) pair')
         return
-- 
2.43.0


From b2d7de46da6d55584c3f37ac3a4dbe8778186560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:45 +0000
Subject: [PATCH 38/47] fix: let L-BFGS operators multiply integer vectors

---
 pykrylov/linop/lbfgs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index 54f530b..f7e81e7 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -101,7 +101,7 @@ class InverseLBFGSOperator(LinearOperator):
         positive-definite approximation to the inverse Hessian matrix and the
         vector v using the LBFGS two-loop recursion formula.
         """
-        q = v.copy()
+        q = v.astype(np.result_type(v.dtype, 'd'))
         s = self.s
         y = self.y
         ys = self.ys
@@ -147,7 +147,7 @@ class LBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and storing key dot products.
         """
-        q = v.copy()
+        q = v.astype(np.result_type(v.dtype, 'd'))
         s = self.s
         y = self.y
         ys = self.ys
@@ -195,8 +195,8 @@ class CompactLBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and caching key dot products.
         """
-        q = v.copy()
-        r = v.copy()
+        q = v.astype(np.result_type(v.dtype, 'd'))
+        r = v.astype(np.result_type(v.dtype, 'd'))
         s = self.s
         y = self.y
         ys = self.ys
@@ -288,7 +288,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and storing key dot products.
         """
-        q = v.copy()
+        q = v.astype(np.result_type(v.dtype, 'd'))
         s = self.s
         y = self.y
         yd = self.yd
-- 
2.43.0


From 3bb2b9d92ddfb5828bcc2957a962c46a20ab92c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:45 +0000
Subject: [PATCH 39/47] fix: accept integer right-hand sides in the
 least-squares solvers

---
 pykrylov/lls/craig.py   | 4 ++--
 pykrylov/lls/craigmr.py | 4 ++--
 pykrylov/lls/lsmr.py    | 4 ++--
 pykrylov/lls/lsqr.py    | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index b190aea..f816771 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -17,7 +17,7 @@ dominique.orban@gerad.ca
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot, inf
+from numpy import zeros, dot, inf, result_type
 from numpy.linalg import norm
 from math import sqrt
 
@@ -209,7 +209,7 @@ class CRAIGFramework(KrylovMethod):
         dErr = zeros(window)     # Truncated direct error terms.
         trncDirErr = 0           # Truncated direct error.
 
-        Mu = rhs[:m].copy()
+        Mu = rhs[:m].astype(result_type(rhs.dtype, 1.0))
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 4e3f4f2..dd16dea 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -5,7 +5,7 @@ __docformat__ = 'restructuredtext'
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot
+from numpy import zeros, dot, result_type
 from numpy.linalg import norm
 from math import sqrt
 
@@ -72,7 +72,7 @@ class CRAIGMRFramework(KrylovMethod):
 
         # Initialize the Golub-Kahan bidiagonalization process.
 
-        Mu = b.copy()  # Don't want to change input vector.
+        Mu = b.astype(result_type(b.dtype, 1.0))  # Don't want to change input vector.
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 1b244c2..690a8d4 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -21,7 +21,7 @@ __docformat__ = 'restructuredtext'
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot, inf
+from numpy import zeros, dot, inf, result_type
 from numpy.linalg import norm
 from math import sqrt
 
@@ -211,7 +211,7 @@ class LSMRFramework(KrylovMethod):
 
         # Initialize the Golub-Kahan bidiagonalization process.
 
-        Mu = b.copy()
+        Mu = b.astype(result_type(b.dtype, 1.0))
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 3a4cc50..55d0f7e 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -13,7 +13,7 @@ Dominique Orban, Ecole Polytechnique de Montreal
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot, inf
+from numpy import zeros, dot, inf, result_type
 from numpy.linalg import norm
 from math import sqrt
 
@@ -185,7 +185,7 @@ class LSQRFramework(KrylovMethod):
         if store_iterates:
             self.iterates.append(x.copy())
 
-        Mu = rhs[:m].copy()
+        Mu = rhs[:m].astype(result_type(rhs.dtype, 1.0))
         if M is not None:
             u = M(Mu)
         else:
-- 
2.43.0


From d6452a591d98f27f5455ed6c227faeae6b3327d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 40/47] fix: link an inferred adjoint or transpose back to its
 operator

---
 pykrylov/linop/linop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index d327377..a9007ee 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -139,11 +139,13 @@ class LinearOperator(BaseLinearOperator):
                     if self.H is None and __conj is not None:
                         self.logger.debug('Inferring .H')
                         self.__H = __conj.T
+                        self.__H.__H = self
                 if self.H is not None:
                     self.__H.__T = __conj
                     if self.T is None and __conj is not None:
                         self.logger.debug('Inferring .T')
                         self.__T = __conj.H
+                        self.__T.__T = self
 
     def __set_transpose(self, matvec, transpose_of=None, matvec_transp=None, **kwargs):
 
-- 
2.43.0


From 16c95b554ecf8698e789a61b9b24ac0ee409094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 41/47] fix: infer a square shape for symmetric coordinate
 operators

---
 pykrylov/linop/linop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index a9007ee..effb426 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -649,8 +649,11 @@ def CoordLinearOperator(vals, rows, cols,
     `rows` and `cols`. If `symmetric` is `True`, then `vals`, `rows` and
     `cols` are assumed to only represent one triangle of the operator.
     """
+    square = symmetric and (nargin == 0 or nargout == 0)
     if nargin == 0: nargin = cols.max() + 1
     if nargout == 0: nargout = rows.max() + 1
+    # One triangle need not have an entry in both the last row and column.
+    if square: nargin = nargout = max(nargin, nargout)
 
     def matvec(x):
       if x.shape != (nargin,):
-- 
2.43.0


From 25a98184761895bbb36c84310b49be128b1af705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 42/47] fix: reject L-BFGS pairs whose inner product is not a
 number

---
 pykrylov/linop/lbfgs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index f7e81e7..2a56441 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -75,7 +75,7 @@ class InverseLBFGSOperator(LinearOperator):
         case the storage limit has been reached.
         """
         ys = np.dot(new_s, new_y)
-        if ys <= self.accept_threshold:
+        if not ys > self.accept_threshold:    # also rejects NaN
             self.logger.debug('Rejecting (s,y) pair')
             return
 
-- 
2.43.0


From a756e9855ad477e48eb9596025b67e283d0a986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 43/47] fix: let compact L-BFGS operators multiply complex
 vectors

---
 pykrylov/linop/lbfgs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index 2a56441..99495dd 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -201,7 +201,7 @@ class CompactLBFGSOperator(InverseLBFGSOperator):
         y = self.y
         ys = self.ys
         prodn = 2 * self.npairs
-        a = np.zeros(prodn)
+        a = np.zeros(prodn, dtype=q.dtype)
         minimat = np.zeros([prodn, prodn])
 
         if self.scaling:
-- 
2.43.0


From d80d1bd040311e31ccfa62558af68399704717d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 44/47] fix: report an indefinite preconditioner as such in
 MINRES

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 9fe96e6..3d4c36d 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -252,7 +252,7 @@ class Minres(KrylovMethod):
                 oldb   = beta
                 beta   = dot(r2,y)
                 if beta < 0:
-                    istop = 6
+                    istop = 9
                     break
                 beta   = sqrt(beta)
                 tnorm2 = tnorm2 + alfa**2 + oldb**2 + beta**2
-- 
2.43.0


From 69bc15e1e974f0d9c946bf0a718499631fa13fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 45/47] fix: report an indefinite preconditioner as such in
 SYMMLQ

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 498a0e5..4579d98 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -315,7 +315,7 @@ class Symmlq(KrylovMethod) :
                 beta = np.dot(r2, y)
 
                 if beta < 0:
-                    istop = 6
+                    istop = 8
                     break
 
                 beta  = np.sqrt(beta)
-- 
2.43.0


From 79a029a89862b6a89351336c79708e276cb91fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 46/47] fix: honour scaling in the direct L-BFGS operator

---
 pykrylov/linop/lbfgs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index 99495dd..0e318cb 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -154,6 +154,12 @@ class LBFGSOperator(InverseLBFGSOperator):
         b = np.zeros((self.n, self.npairs))
         a = np.zeros((self.n, self.npairs))
 
+        if self.scaling:
+            last = (self.insert - 1) % self.npairs
+            if ys[last] is not None:
+                self.gamma = ys[last] / np.dot(y[:, last], y[:, last])
+                q /= self.gamma
+
         # B = Σ aa' - bb'.
         for i in range(self.npairs):
             k = (self.insert + i) % self.npairs
@@ -161,7 +167,7 @@ class LBFGSOperator(InverseLBFGSOperator):
                 b[:, k] = y[:, k] / ys[k]**.5
                 bv = np.dot(b[:, k], v[:])
                 q += bv * b[:, k]
-                a[:, k] = s[:, k].copy()
+                a[:, k] = s[:, k] / self.gamma
                 for j in range(i):
                     l = (self.insert + j) % self.npairs
                     if ys[l] is not None:
-- 
2.43.0


From c79fe557fa1eaad2c75b5e14a1ec6ba6bc292b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 47/47] fix: satisfy the secant equation in the structured
 L-BFGS operator

---
 pykrylov/linop/lbfgs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index 0e318cb..4e1c98d 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -323,7 +323,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
                     if ys[l] is not None:
                         alTs = np.dot(a[:, l], s[:, k]) / aTs[l]
                         adlTs = np.dot(ad[:, l], s[:, k])
-                        update = alTs / aTs[l] * ad[:, l] + adlTs / aTs[l] * a[:, l] - adTs[l] / aTs[l] * alTs * a[:, l]
+                        update = alTs * ad[:, l] + adlTs / aTs[l] * a[:, l] - adTs[l] / aTs[l] * alTs * a[:, l]
                         a[:, k] += coef * update
                         ad[:, k] -= update
                 aTs[k] = np.dot(a[:, k], s[:, k])
-- 
2.43.0

