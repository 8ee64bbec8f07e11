From 4ffa527a50f10c73f667527babc517f8628d9776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 01/50] fix: digits I and J swapped in base representation
 alphabet

---
 coniii/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 1fb5315..070ac38 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -10,7 +10,7 @@ from scipy.spatial.distance import squareform
 from scipy.special import binom
 from warnings import warn
 NUMERALS = '0123456789'
-ALPHNUM = '0123456789ABCDEFGHJIKLMNOPQRSTUVWXYZ'
+ALPHNUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
 
 
 @njit(cache=True)
@@ -353,7 +353,7 @@ def _small_base(i, base):
   
 @njit
 def _large_base(i, base):
-    ALPHANUM = '0123456789ABCDEFGHJIKLMNOPQRSTUVWXYZ'
+    ALPHANUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
     rep = []
     exponent = int(np.log(i)/np.log(base))
     term = int(i/base**exponent)
-- 
2.43.0


From 234470668861dfec608213d096e1dbd05308ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 02/50] fix: k_corr overwrote the exclude_empty averages with
 plain averages

---
 coniii/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/utils.py b/coniii/utils.py
index 070ac38..78f2718 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -243,6 +243,7 @@ def k_corr(X, k,
         for counter,ijk in enumerate(combinations(range(N), k)):
             p = np.prod(X[:,ijk], axis=1)
             kcorr[counter] = p[p!=0].mean()
+        return kcorr
     
     if weights is None:
         weights = np.ones(S)/S
-- 
2.43.0


From a3dfcad9a7739e6c001aa6a882fff790f8e6d226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 03/50] fix: convert_corr raised NameError for the deprecated
 convertTo keyword

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 78f2718..e3f7f39 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -589,7 +589,7 @@ def convert_corr(si, sisj, convert_to, concat=False, **kwargs):
     if 'convertTo' in kwargs.keys():
         from warnings import warn
         warn("convertTo kwarg is deprecated as of v1.1.2. Use convert_to instead.")
-        convert_to = convertTo
+        convert_to = kwargs['convertTo']
     elif len(kwargs.keys())>0:
         raise TypeError("Unexpected keyword argument.")
 
-- 
2.43.0


From 0f43c7679454ad3bae4cb5a894892f99d9502c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 04/50] fix: argument types of fast_sum in
 define_ising_helper_functions_sym were swapped

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index e3f7f39..5b86fdb 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1002,7 +1002,7 @@ def define_ising_helper_functions_sym():
         mch_approximation
     """
 
-    @njit("float64[:](int64[:],float64[:,:])", cache=True)
+    @njit("float64[:](float64[:],int64[:,:])", cache=True)
     def fast_sum(J,s):
         """Helper function for calculating energy in calc_e(). Iterates couplings J."""
         e = np.zeros((s.shape[0]))
-- 
2.43.0


From 468ea0c4297d7d9e65fbf44046edc3c55c1127fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 05/50] fix: state_probs ignored weights when no list of states
 was given

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 5b86fdb..4b5bd3f 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -650,7 +650,7 @@ def state_probs(v, allstates=None, weights=None, normalized=True):
     if allstates is None:
         allstates = v[unique_rows(v)]
         uniqIx = unique_rows(v, return_inverse=True)
-        freq = np.bincount( uniqIx )
+        freq = np.bincount( uniqIx, weights=weights )
         return_all_states = True
     else:
         if weights is None:
-- 
2.43.0


From 26f72912aa3e5fd2ef718a7784ee0ef03b75db86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 06/50] fix: get_nidx used bin_states without importing it

---
 coniii/enumerate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/enumerate.py b/coniii/enumerate.py
index 82e2220..eda34b3 100755
--- a/coniii/enumerate.py
+++ b/coniii/enumerate.py
@@ -396,6 +396,7 @@ def get_nidx(k, n):
     if k==n:
         return np.reshape(list(range(n)),(n,1))
     elif k<n:
+        from .utils import bin_states
         allStates = bin_states(n)
         statesix = np.sum(allStates,1)==k
         ix = []
-- 
2.43.0


From abe4f8ede701f6ed5728b4c4a17384bd4d066e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 07/50] fix: logp referred to an undefined name for a single
 state

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index dbd407f..479e385 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -162,7 +162,7 @@ class Solver():
             assert isinstance(sample, np.ndarray)
             assert set(np.unique(sample)) <= frozenset((-1,0,1))
         if sample.ndim==1:
-            sample = s[None,:]
+            sample = sample[None,:]
 
         # only iterate over unique states in sample
         us, uix = np.unique(sample, axis=0, return_inverse=True)
-- 
2.43.0


From 50c9496c7be260efa058a6a284aaf3e9d4eefb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 08/50] fix: Enumerate.solve failed with given constraints when
 there is no sample

---
 coniii/solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 479e385..bb624fe 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -262,12 +262,12 @@ class Enumerate(Solver):
             Output from scipy.optimize.root.
         """
         
-        if not initial_guess is None:
-            assert initial_guess.size==self.constraints.size
-        else: initial_guess = np.zeros(self.constraints.size)
         if constraints is None:
             constraints = self.constraints
             assert not constraints is None
+        if not initial_guess is None:
+            assert initial_guess.size==constraints.size
+        else: initial_guess = np.zeros(constraints.size)
         
         # default solver routine
         if use_root:
-- 
2.43.0


From ae79fea4216748b2f15f2361bdc072cde9d7a5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 09/50] fix: Ising misread a 2x2 parameter matrix as a pair of
 vectors

---
 coniii/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/models.py b/coniii/models.py
index 3109061..98adc88 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -149,7 +149,7 @@ class Ising(Model):
             assert multipliers>1, "System size must be greater than 1."
             self.n = multipliers
             multipliers = np.zeros(self.n+self.n*(self.n-1)//2)
-        if len(multipliers)==2:
+        if len(multipliers)==2 and not (type(multipliers) is np.ndarray and multipliers.ndim==2):
             # case where two vectors are given
             self.n = len(multipliers[0])
             assert self.n*(self.n-1)/2==len(multipliers[1]), "Must be n fields and (n choose 2) couplings."
-- 
2.43.0


From 8b4f5b2ac775c18717ec3ee5828d47e7051f5b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 10/50] fix: Ising lacked calc_observables when no equation
 file is available

---
 coniii/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/models.py b/coniii/models.py
index 98adc88..3773bc3 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -180,6 +180,7 @@ class Ising(Model):
         except ModuleNotFoundError:
             self._calc_observables = None
             self._calc_p = None
+            self.calc_observables = None
             self.calc_p = None
         self.set_multipliers(multipliers)
 
-- 
2.43.0


From cc9c7c498978c033b563948f48003de24f336844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 11/50] fix: sparse solvers did not restrict the constraints of
 the sample to the fitted parameters

---
 coniii/solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index bb624fe..807a395 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -402,8 +402,8 @@ class SparseEnumerate(Solver):
             assert initial_guess.size==self.parameterIx.size
         else: initial_guess = np.zeros(self.parameterIx.size)
         if constraints is None:
-            constraints = self.constraints
-            assert not constraints is None and constraints.size==self.parameterIx.size
+            assert not self.constraints is None
+            constraints = self.constraints[self.parameterIx]
         
         # default solver routine
         if use_root:
@@ -1189,8 +1189,8 @@ class SparseMCH(Solver):
             assert initial_guess.size==self.parameterIx.size
         else: initial_guess = np.zeros(self.parameterIx.size)
         if constraints is None:
-            constraints = self.constraints
-            assert not constraints is None and constraints.size==self.parameterIx.size
+            assert not self.constraints is None
+            constraints = self.constraints[self.parameterIx]
 
 
         # set up for solution
-- 
2.43.0


From e0dfc02f8b3e5be89478e80482e4e1eb0f152b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 12/50] fix: set_insertion_ix used an undefined loop variable
 for a single fitted parameter

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 807a395..e09a092 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -120,7 +120,7 @@ class Solver():
         for i, ix in enumerate(self.parameterIx[1:]):
             insertionIx.extend([i+1] * (ix-self.parameterIx[i]-1))
         if self.parameterIx[-1]<(nParams - 1):
-            insertionIx.extend([i+2] * (nParams - self.parameterIx[-1] - 1))
+            insertionIx.extend([len(self.parameterIx)] * (nParams - self.parameterIx[-1] - 1))
 
         #assert np.insert(initial_guess, insertionIx, 0).size==nParams
         self.insertionIx = insertionIx
-- 
2.43.0


From eccbb0bf73729614a1a3d69fcee60ee1cd88f195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 13/50] fix: MPF discarded user supplied adj and calc_de

---
 coniii/solvers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index e09a092..6682adb 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -491,9 +491,8 @@ class MPF(Solver):
         self.basic_setup(sample, model, calc_observables, iprint, model_kwargs=default_model_kwargs)
         if adj is None:
             from .utils import adj
-            self.adj = adj
-        if calc_de is None:
-            self.calc_de = calc_de  # imported from utils.py
+        self.adj = adj
+        self.calc_de = calc_de
         
     @staticmethod
     def worker_objective_task( s, Xcount, adjacentStates, params, calc_e ):
-- 
2.43.0


From 9b927916d075117913128fc11066ffc5c7896949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 14/50] fix: gradient of the log MPF objective was offset by a
 constant

---
 coniii/solvers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 6682adb..1945973 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -615,7 +615,6 @@ class MPF(Solver):
             power -= power.max()
             objGrad[i] = ((gradcoef*np.exp(power)*Xcount[:,None]).sum() /
                           (np.exp(power)*Xcount[:,None]).sum())
-        objGrad -= np.log(Xcount.sum())
         
         if objGrad.size==1:
             raise Exception("")
-- 
2.43.0


From ab64cf83135722fb71c4fc7550bce3e132e6af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 15/50] fix: MPF with all_connected=False used an undefined
 name and inverted its connectivity test

---
 coniii/solvers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 1945973..75f0b7d 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -597,9 +597,10 @@ class MPF(Solver):
 
         obj = 0.
         objGrad = np.zeros((params.size))
-        power = np.zeros((len(Xuniq), len(adjacentStates[0])))  # energy differences
+        # energy differences; states may have different numbers of neighbors
+        power = np.full((len(Xuniq), max([len(a) for a in adjacentStates])), -np.inf)
         for i,s in enumerate(Xuniq):
-            power[i,:] = .5*( self.model.calc_e(s[None,:], params) -
+            power[i,:len(adjacentStates[i])] = .5*( self.model.calc_e(s[None,:], params) -
                               self.model.calc_e(adjacentStates[i], params) )
             
         obj = logsumexp( power + np.log(Xcount)[:,None] -np.log(Xcount.sum()) )
@@ -609,9 +610,9 @@ class MPF(Solver):
 
         # coefficients that come out from taking derivative of exp
         for i in range(params.size):
-            gradcoef = np.zeros((len(Xuniq), len(adjacentStates[0])))  
+            gradcoef = np.zeros(power.shape)
             for j,s in enumerate(Xuniq): 
-                gradcoef[j,:] = .5 * ( self.calc_de(s[None,:],i) - self.calc_de(adjacentStates[j],i) )
+                gradcoef[j,:len(adjacentStates[j])] = .5 * ( self.calc_de(s[None,:],i) - self.calc_de(adjacentStates[j],i) )
             power -= power.max()
             objGrad[i] = ((gradcoef*np.exp(power)*Xcount[:,None]).sum() /
                           (np.exp(power)*Xcount[:,None]).sum())
@@ -642,7 +643,7 @@ class MPF(Solver):
                 for i,t in enumerate(adjacentStates[-1]):
                     if np.any(np.all(t[None,:]==Xuniq,1)):
                         ix[i] = False
-                if np.sum(ix)==X.shape[1]:
+                if not ix.any():
                     raise Exception("This data set does not satisfy MPF assumption that each \
                                     state be connected to at least one non-data state (?)")
                 adjacentStates[-1] = adjacentStates[-1][ix]
-- 
2.43.0


From 057f1e9244c9ebeb62ccb3d0d9d376bc9606fac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 16/50] fix: MPF._K used unqualified numpy names

---
 coniii/solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 75f0b7d..d5935e9 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -560,16 +560,16 @@ class MPF(Solver):
         
         h = J[:ndims]
         J = squareform( J[ndims:] )
-        J[diag_indices(ndims)] = h
+        J[np.diag_indices(ndims)] = h
         
-        Y = dot(J,X)
+        Y = np.dot(J,X)
         diagJ = J.diagonal()
         # XnotX contains (X - [bit flipped X])
         XnotX = 2.*X-1;
         # Kfull is a [ndims, nbatch] matrix containing the contribution to the 
         # objective function from flipping each bit in the rows, for each datapoint 
         # on the columns
-        Kfull = np.exp( XnotX * Y - (1/2)*tile(diagJ[:,None],(1,nbatch)) )
+        Kfull = np.exp( XnotX * Y - (1/2)*np.tile(diagJ[:,None],(1,nbatch)) )
         K = sum(Kfull)
         K  = K  / nbatch
         return K
-- 
2.43.0


From 3b41b7b76ca1e9a103f5e77730ee7809a4c632df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 17/50] fix: pseudo_log_likelihood did not call the conditional
 likelihood of the solver

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index d5935e9..4dcf852 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2128,7 +2128,7 @@ class Pseudo(Solver):
             J should be symmetric
         """
 
-        return np.sum([ cond_log_likelihood(r,X,J) for r in range(len(J)) ])
+        return np.sum([ self.cond_log_likelihood(r,X,J[r]) for r in range(len(J)) ])
 #end Pseudo
 
 
-- 
2.43.0


From 0e119b3824ef2885e7c9828db61cb6113606c9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 18/50] fix: Pseudo left k unset with default helper functions

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 4dcf852..9dcbfa9 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -1689,11 +1689,11 @@ class Pseudo(Solver):
         """
         
         self.basic_setup(sample, model, calc_observables, iprint, model_kwargs=default_model_kwargs)
+        self.k = k
         if calc_observables_r is None or get_multipliers_r is None:
             self.get_multipliers_r, self.calc_observables_r = define_pseudo_ising_helper_functions(self.n)
         else:
             assert sample.max()<=(k-1)
-            self.k = k
             self.get_multipliers_r, self.calc_observables_r = get_multipliers_r, calc_observables_r
 
     def solve(self, force_general=False, **kwargs):
-- 
2.43.0


From 2cda9cd14054b69c7f3c8b24053e1545fbfb0441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 19/50] fix: ClusterExpansion used unqualified log and
 SmeanField

---
 coniii/solvers.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 9dcbfa9..083739a 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2204,19 +2204,19 @@ class ClusterExpansion(Solver):
             raise Exception
         elif (len(cluster) == 1) and useAnalyticResults:
             p = coocMat[cluster[0],cluster[0]]
-            J = np.array( [ [ -log( p / (1.-p) ) ] ] )
+            J = np.array( [ [ -np.log( p / (1.-p) ) ] ] )
         elif (len(cluster) == 2) and useAnalyticResults:
             i = min(cluster[0],cluster[1])
             j = max(cluster[0],cluster[1])
             pi = coocMat[i,i]
             pj = coocMat[j,j]
             pij = coocMat[i,j]
-            Jii1 = -log( pi / (1.-pi) )
-            Jjj1 = -log( pj / (1.-pj) )
-            Jii = -log( (pi - pij)/(1.-pi-pj+pij) )
-            Jjj = -log( (pj - pij)/(1.-pi-pj+pij) )
-            Jij = - log( pij ) + log( pi - pij ) + log( pj - pij )    \
-                - log( 1.-pi-pj+pij )
+            Jii1 = -np.log( pi / (1.-pi) )
+            Jjj1 = -np.log( pj / (1.-pj) )
+            Jii = -np.log( (pi - pij)/(1.-pi-pj+pij) )
+            Jjj = -np.log( (pj - pij)/(1.-pi-pj+pij) )
+            Jij = - np.log( pij ) + np.log( pi - pij ) + np.log( pj - pij )    \
+                - np.log( 1.-pi-pj+pij )
             J = np.array( [ [ Jii, 0.5*Jij ], [ 0.5*Jij, Jjj ] ] )
         else:
             coocMatCluster = mean_field_ising.coocCluster(coocMat,cluster)
@@ -2335,7 +2335,7 @@ class ClusterExpansion(Solver):
             deltaJcluster -= J0cluster
         elif meanFieldRef:
             # subtract mean field reference entropy
-            S0cluster,J0cluster = SmeanField(cluster,coocMat,
+            S0cluster,J0cluster = mean_field_ising.SmeanField(cluster,coocMat,
                 meanFieldPriorLmbda,numSamples)
             deltaScluster -= S0cluster
             deltaJcluster -= J0cluster
@@ -2493,7 +2493,7 @@ class ClusterExpansion(Solver):
         if independentRef:
             ent, J0 = self.Sindependent(cluster, coocMat)
         elif meanFieldRef:
-            ent, J0 = SmeanField(cluster, coocMat, meanFieldPriorLmbda, numSamples)
+            ent, J0 = mean_field_ising.SmeanField(cluster, coocMat, meanFieldPriorLmbda, numSamples)
         else:
             ent = 0.
             J0 = np.zeros((N,N))
-- 
2.43.0


From 85019d800484655d12ffdb4b342e6c1c5fac56e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 20/50] fix: WolffIsing used the removed numpy alias bool

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index a8c6258..79e9679 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -367,7 +367,7 @@ class WolffIsing(Sampler):
         # (1-exp(-2*J))
 
         # Find neighbors but keep only neighbors that have not already been visited.
-        ix = np.zeros((self.n),dtype=np.bool)
+        ix = np.zeros((self.n),dtype=bool)
         ix[alreadyMarked] = True
         ix[site] = True
         neighbors = iterate_neighbors(self.n,ix,self.expdJ[:,site],self.rng.rand(self.n)).tolist()
-- 
2.43.0


From 528bb147a91c6bf2aa48220f622cd1f18fb79bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 21/50] fix: WolffIsing changed the initial sample given by the
 caller

---
 coniii/samplers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 79e9679..81fa7e3 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -252,7 +252,7 @@ class WolffIsing(Sampler):
 
         if initialSample is None:
             sample = self.rng.choice([-1.,1.],size=(samplesize,self.n))
-        else: sample = initialSample
+        else: sample = initialSample.copy()
         
         if save_history:
             history = np.zeros((samplesize,self.n,n_iters+1))
@@ -277,7 +277,7 @@ class WolffIsing(Sampler):
 
         if initialSample is None:
             sample = self.rng.choice([-1.,1.],size=(samplesize,self.n))
-        else: sample = initialSample
+        else: sample = initialSample.copy()
         #if (n_iters%self.n)!=0:
         #    n_iters = (n_iters//self.n+1)*self.n  # hit each spin the same number of times
         #    print "Increased n_iters to %d"%n_iters
-- 
2.43.0


From 5d406d5913c5a4513c6af91034e00cc6c423d2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 22/50] fix: WolffIsing replaced initial site 0 by a random
 site

---
 coniii/samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 81fa7e3..72a2e2b 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -322,7 +322,8 @@ class WolffIsing(Sampler):
         self.expdJ = np.exp(-2*state[:,None]*J*state[None,:])
 
         # Choose random site.
-        initialsite = initialsite or self.rng.randint(n)
+        if initialsite is None:
+            initialsite = self.rng.randint(n)
         cluster = self.build_cluster(state,initialsite)
         
         # Flip cluster?
-- 
2.43.0


From 06fd9851083819f9b9ccc225b8915a594e8a7b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 23/50] fix: WolffIsing seeded its workers from the global
 generator

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 72a2e2b..c914c58 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -290,7 +290,7 @@ class WolffIsing(Sampler):
             return s
         
         pool=mp.Pool(mp.cpu_count())
-        sample=np.vstack(pool.map(f,list(zip(sample,np.random.randint(2**31-1,size=samplesize)))))
+        sample=np.vstack(pool.map(f,list(zip(sample,self.rng.randint(2**31-1,size=samplesize)))))
         pool.close()
         return sample
 
-- 
2.43.0


From fe7c563c95a76a5d8c619b72c94f59a25a7246a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 24/50] fix: SWIsing.generate_sample_parallel used an undefined
 name

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index c914c58..49e9a42 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -454,7 +454,7 @@ class SWIsing(Sampler):
         initial_state : ndarray,None
         """
 
-        n_cpus = n_ncpus or self.nCpus
+        n_cpus = n_cpus or self.nCpus
 
         if initial_state is None:
             sample = self.rng.choice([-1,1],size=(n_samples,self.n))
-- 
2.43.0


From 9f6065d4571b6718d1ab60e13d2ca010f1eeaec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 25/50] fix: check_e_logp imported unique_rows from a package
 that is not part of ConIII

---
 coniii/samplers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 49e9a42..cbb0015 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -2400,8 +2400,6 @@ def check_e_logp(sample, calc_e):
     calc_e
     """
 
-    from misc.utils import unique_rows
-
     uniqueix = unique_rows(sample,return_inverse=True)
     uniqStates = sample[unique_rows(sample)]
 
-- 
2.43.0


From a7b56402ce7a3d4b6ad8f31438df2cf3d2ad5f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 26/50] fix: samplers replaced a burn in of zero by n_iters

---
 coniii/samplers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index cbb0015..bb61b7d 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1215,7 +1215,7 @@ class Metropolis(Sampler):
             Saved array of energies at each sampling step.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         assert sample_size>0 and n_iters>-1 and burn_in>-1
         
         bsampler = BoostIsing(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
@@ -1256,7 +1256,7 @@ class Metropolis(Sampler):
             Saved array of energies at each sampling step.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         if (initial_sample is None and
             (self._samples is None or len(self._samples)!=sample_size)):
             self._samples = self.random_sample(1)
@@ -1347,7 +1347,7 @@ class Metropolis(Sampler):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
 
         # Parallel sample. Each thread needs to return sample_size/n_cpus samples.
         def f(args, n=self.n, multipliers=self.theta):
@@ -1391,7 +1391,7 @@ class Metropolis(Sampler):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         n_cpus = mp.cpu_count()
         if (initial_sample is None and
             (self._samples is None or len(self._samples)!=n_cpus)):
@@ -1481,7 +1481,7 @@ class Metropolis(Sampler):
             Energy of each sample.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         assert sample_size>0 and n_iters>-1 and burn_in>-1
         fixed_subset_ = list(zip(*fixed_subset))
         assert (np.diff(fixed_subset_[0]) > 0).all()
@@ -1841,7 +1841,7 @@ class Potts3(Metropolis):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         n_cpus = self.nCpus  # alias
         assert n_cpus>=2, "Sampler is not set up for multiprocessing, nCpus<=1."
         assert sample_size>n_cpus, "Parallelization only helps if many samples are generated per thread."
-- 
2.43.0


From 0967ca79ef0c62c9c6b74cb15a59416a097d102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 27/50] fix: generate_cond_sample_py overwrote the initial
 sample given by the caller

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index bb61b7d..21053f7 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1569,7 +1569,7 @@ class Metropolis(Sampler):
         if initial_sample is None:
             self.sample = self.rng.choice([-1,1], size=(sample_size, nSubset))
         else:
-            self.sample = initial_sample
+            self.sample = initial_sample.copy()
         
         # Redefine calc_e to calculate energy and putting back in the fixed spins.
         def cond_calc_e(state, theta):
-- 
2.43.0


From 2ef0aaa9e422a732ad4c61bac681d8176b1065b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 28/50] fix: generate_cond_sample_boost let out of range or
 exhaustive fixed sets reach the native sampler

---
 coniii/samplers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 21053f7..8f8c6db 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1492,7 +1492,10 @@ class Metropolis(Sampler):
         fixed_subset = np.array(fixed_subset[0], dtype=np.int32), np.array(fixed_subset[1], dtype=np.int32)
         assert (np.diff(fixed_subset[0]) > 0).all()
         assert frozenset((-1,1)) >= set(fixed_subset[1].tolist())
-       
+        # the native sampler does not check bounds
+        assert fixed_subset[0][0]>=0 and fixed_subset[0][-1]<self.n, "Fixed spin out of range."
+        assert fixed_subset[0].size<self.n, "At least one spin must be free."
+
         if not parallel:
             bsampler = BoostIsing(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
             bsampler.generate_cond_sample(fixed_subset[0],
-- 
2.43.0


From 862c27736273ffc472fb3cac46bdf2f2558aa5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 29/50] fix: generate_sample_py continued from several parallel
 chains at once

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 8f8c6db..2d149fc 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1258,7 +1258,7 @@ class Metropolis(Sampler):
         
         burn_in = n_iters if burn_in is None else burn_in
         if (initial_sample is None and
-            (self._samples is None or len(self._samples)!=sample_size)):
+            (self._samples is None or len(self._samples)!=1 or sample_size!=1)):
             self._samples = self.random_sample(1)
         elif not initial_sample is None:
             msg = "Initial sample can only be one state for sequential sampling."
-- 
2.43.0


From 9ae2e6813553ed75f6da3f0a098e7b4e3fb89e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 30/50] fix: ParallelTempering replicas did not use the given
 random generator

---
 coniii/samplers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 2d149fc..114f0f3 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -683,7 +683,9 @@ class ParallelTempering(Sampler):
 
         self.replicas = []
         for i,b in enumerate(self.beta):
-            self.replicas.append( Metropolis(self.n, self.theta*b, self.calc_e, boost=False) )
+            self.replicas.append( Metropolis(self.n, self.theta*b, self.calc_e,
+                                              rng=np.random.RandomState(self.rng.randint(2**31-1)),
+                                              boost=False) )
             # give each replica an index
             self.replicas[i].index = i
         self.burn_in_replicas()
-- 
2.43.0


From f9c59ee2b89e67f2d5a378b92029a5fb87506c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 31/50] fix: Potts3 sampler did not concatenate parameters
 given as a pair

---
 coniii/samplers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 114f0f3..e3d5580 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1799,6 +1799,7 @@ class Potts3(Metropolis):
             assert theta.size==(n*3+n*(n-1)//2)
         else:
             assert theta[0].size==(3*n) and theta[1].size==n*(n-1)/2
+            theta = np.concatenate(theta)
 
         self.n = n
         self.theta = theta
-- 
2.43.0


From 55d95cc68142401b20e05b3b11b8882bc1c9715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 32/50] fix: Potts3.generate_sample sampled the Ising model

---
 coniii/samplers.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index e3d5580..25103b2 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1823,6 +1823,32 @@ class Potts3(Metropolis):
             self.generate_sample = self.generate_sample_py
             self.generate_sample_parallel = self.generate_sample_parallel_py
 
+    def generate_sample_boost(self,
+                              sample_size,
+                              n_iters=1000,
+                              burn_in=None,
+                              systematic_iter=False):
+        """Generate Metropolis samples using C++ and boost.
+
+        Parameters
+        ----------
+        sample_size : int
+            Number of samples.
+        n_iters : int, 1000
+            Number of Metropolis iterations between samples.
+        burn_in : int, None
+            If None, n_iters is used.
+        systematic_iter : bool, False
+            If True, iterate through each element of system by increment index by one.
+        """
+
+        burn_in = n_iters if burn_in is None else burn_in
+        assert sample_size>0 and n_iters>-1 and burn_in>-1
+
+        bsampler = BoostPotts3(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
+        bsampler.generate_sample(sample_size, burn_in, n_iters, systematic_iter)
+        self.sample = bsampler.fetch_sample().astype(int)
+
     def generate_sample_parallel_boost(self,
                                         sample_size,
                                         n_iters=1000,
-- 
2.43.0


From 7bf3c403f268f88abfeeac515e49c01dde441cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 33/50] fix: Model.generate_sample ignored generate_kwargs

---
 coniii/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coniii/models.py b/coniii/models.py
index 3773bc3..84170f2 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -112,7 +112,8 @@ class Model():
                 self.sampler.update_parameters(multipliers)
                 self.sampler.generate_sample(sample_size,
                                              n_iters=n_iters,
-                                             burn_in=burn_in)
+                                             burn_in=burn_in,
+                                             **generate_kwargs)
                 self.sample = self.sampler.sample
             else:
                 raise NotImplementedError("Unrecognized sampler.")
@@ -123,7 +124,8 @@ class Model():
 
                 self.sampler.generate_sample_parallel(sample_size,
                                                       n_iters=n_iters,
-                                                      burn_in=burn_in)
+                                                      burn_in=burn_in,
+                                                      **generate_kwargs)
                 self.sample = self.sampler.sample
             else:
                 raise NotImplementedError("Unrecognized sampler.")
-- 
2.43.0


From 7c3ef914e0dae843793723f769345ebb0aabd286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 34/50] fix: Ising2D rejected integer and array fields

---
 coniii/ising/automaton.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 2f959e1..b94f78d 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -28,10 +28,7 @@ class Ising2D():
         self.dim = dim
         self.lattice = ((np.random.rand(*dim)<.5)*2.-1).astype(np.int8)
         self.J = J
-        if type(h) is float or type(h) is type(int):
-            self.h = np.zeros(dim)+h
-        else:
-            self.h = h or np.zeros(dim)
+        self.h = np.zeros(dim)+h
         self.rng = rng or np.random.RandomState()
 
     def iterate(self, n_iters, systematic=True):
-- 
2.43.0


From 46dd00324135ecf5b9d47e2fc70c53a7afb3267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 35/50] fix: Ising2D ignored the given random generator

---
 coniii/ising/automaton.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index b94f78d..96124ce 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -26,10 +26,10 @@ class Ising2D():
         
         assert len(dim)==2, "Must specify only x and y dimensions."
         self.dim = dim
-        self.lattice = ((np.random.rand(*dim)<.5)*2.-1).astype(np.int8)
         self.J = J
         self.h = np.zeros(dim)+h
         self.rng = rng or np.random.RandomState()
+        self.lattice = ((self.rng.rand(*dim)<.5)*2.-1).astype(np.int8)
 
     def iterate(self, n_iters, systematic=True):
         """
@@ -44,14 +44,16 @@ class Ising2D():
 
         if not systematic:
             @njit
-            def single_iteration(lattice, dim=self.dim, h=self.h, J=self.J):
+            def single_iteration(lattice, seed, dim=self.dim, h=self.h, J=self.J):
+                np.random.seed(seed)
                 for i in range(n_iters):
                     i, j=np.random.randint(dim[0]), np.random.randint(dim[1])
                     flip_metropolis(i, j, h[i,j], J, lattice)
         else:
             # Fast iteration using jit.
             @njit
-            def single_iteration(lattice, dim=self.dim, h=self.h, J=self.J, size=self.dim[0]*self.dim[1]):
+            def single_iteration(lattice, seed, dim=self.dim, h=self.h, J=self.J, size=self.dim[0]*self.dim[1]):
+                np.random.seed(seed)
                 # Randomly order the lattice points for flipping or else lattice will be very important.
                 ix = np.random.permutation( np.arange(dim[0]*dim[1]) )[:size]
                 for ix_ in ix:
@@ -61,7 +63,7 @@ class Ising2D():
         lattice=self.lattice
         counter = 0
         while counter < n_iters:
-            single_iteration(lattice)
+            single_iteration(lattice, self.rng.randint(2**31-1))
             counter += self.dim[0]*self.dim[1]
         self.lattice = lattice
 
-- 
2.43.0


From 0b109042293b82d809c43e328a031484fc325b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 36/50] fix: native samplers misread parameters that are not
 contiguous doubles

---
 cpp/samplers.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index 8787239..847fefe 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -306,7 +306,9 @@ Ising::Ising(int n, np::ndarray new_multipliers, int seed)
 void Ising::readin_multipliers(np::ndarray new_multipliers) {
     int input_size = new_multipliers.shape(0);
     assert (input_size==(n+n*(n-1)/2));
-    double* input_ptr = reinterpret_cast<double*>(new_multipliers.get_data());
+    // contiguous copy of the right type
+    np::ndarray input = new_multipliers.astype(np::dtype::get_builtin<double>());
+    double* input_ptr = reinterpret_cast<double*>(input.get_data());
     multipliers = std::vector<double>(input_size);
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
@@ -396,7 +398,9 @@ Potts3::Potts3(int n, np::ndarray new_multipliers, int seed)
 void Potts3::readin_multipliers(np::ndarray new_multipliers) {
     int input_size = new_multipliers.shape(0);
     assert (input_size==(n*3+n*(n-1)/2));
-    double* input_ptr = reinterpret_cast<double*>(new_multipliers.get_data());
+    // contiguous copy of the right type
+    np::ndarray input = new_multipliers.astype(np::dtype::get_builtin<double>());
+    double* input_ptr = reinterpret_cast<double*>(input.get_data());
     multipliers = std::vector<double>(input_size);
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
-- 
2.43.0


From e280a7e6878aecda32d8db01acf1c25c6e7c3723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 37/50] fix: BoostIsing.readin_multipliers left the old
 couplings in place

---
 cpp/samplers.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index 847fefe..19a6fb5 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -285,18 +285,9 @@ Ising::Ising(int n, std::vector<double> multipliers, int seed)
 
 Ising::Ising(int n, np::ndarray new_multipliers, int seed)
  : Sampler(n, new_multipliers, seed) {
-     int counter = 0;
-
      // read in numpy array
      readin_multipliers(new_multipliers);
 
-     // setup couplings by copying to a matrix
-     for (int i=0; i<(n-1); ++i) {
-         for (int j=i+1; j<n; ++j) {
-             couplingMat[i][j] = couplingMat[j][i] = multipliers[counter+n];
-             counter++;
-         }
-     }
      // check that diagonal is zero
      for (int i=0; i<n; ++i) {
          assert (couplingMat[i][i]==0);
@@ -313,6 +304,15 @@ void Ising::readin_multipliers(np::ndarray new_multipliers) {
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
     }
+
+    // setup couplings by copying to a matrix
+    int counter = 0;
+    for (int i=0; i<(n-1); ++i) {
+        for (int j=i+1; j<n; ++j) {
+            couplingMat[i][j] = couplingMat[j][i] = multipliers[counter+n];
+            counter++;
+        }
+    }
 };
 
 // Initialize samples with random -1, 1 values
-- 
2.43.0


From 643997ba32a080400bdd2c2638a3510cc0931c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 38/50] fix: Potts3 constructor from a vector read its
 couplings from the fields

---
 cpp/samplers.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index 19a6fb5..74ad818 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -369,9 +369,18 @@ double Ising::sample_metropolis(std::vector<int> &s, int const randix) {
 // ================
 Potts3::Potts3(int n, std::vector<double> new_multipliers, int seed)
  : Sampler(n, new_multipliers, seed) {
+     int counter = 0;
      staterng = std::uniform_int_distribution<int> (1,2);
      
      assert(multipliers.size()==(n*3+n*(n-1)/2));
+
+     // couplings come after three fields per spin
+     for (int i=0; i<(n-1); ++i) {
+         for (int j=i+1; j<n; ++j) {
+             couplingMat[i][j] = couplingMat[j][i] = multipliers[counter+n*3];
+             counter++;
+         }
+     }
  };
 
 Potts3::Potts3(int n, np::ndarray new_multipliers, int seed)
-- 
2.43.0


From 4f75ff9c7f6a107c2e6c1e9f6b8498cc33491288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 39/50] fix: Potts3::multipliers2ndarray returned a view of
 memory it does not own

---
 cpp/samplers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index 74ad818..c348126 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -494,5 +494,5 @@ np::ndarray Potts3::multipliers2ndarray() {
     py::tuple stride = py::make_tuple(sizeof(std::vector<double>::value_type));
     np::dtype dt = np::dtype::get_builtin<double>();
     np::ndarray ndmultipliers = np::from_data(&multipliers[0], dt, shape, stride, py::object());
-    return ndmultipliers;
+    return ndmultipliers.copy();
 };
-- 
2.43.0


From 6df3250cb8f8cfbc3776557b1eca48b50b997e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 40/50] fix: WolffIsing neighbor search did not compile

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 25103b2..ec931c9 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -396,7 +396,7 @@ def iterate_neighbors(n,ix,expdJ,r):
     """
 
     counter=0
-    neighbors=np.zeros((n), dtype=int)
+    neighbors=np.zeros((n), dtype=np.int64)
     for i in range(n):
         # Don't include neighbors that are already marked.
         # Check against probability as specified in Wolff's paper for forming link.
-- 
2.43.0


From 68a913deb9e489661d7a0d7685d444b08827d0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 41/50] fix: define_jit_cond_calc_e read the value of a fixed
 spin from the wrong place

---
 coniii/samplers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index ec931c9..69aa01b 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1749,9 +1749,9 @@ def define_jit_cond_calc_e(n, calc_e, fixed_subset):
         i0 = 0
         stateix = 0
         # Fill all spins in between fixed ones.
-        for i in range(0, fixed_subset.size, 2):
-            i = fixed_subset[i]
-            s = fixed_subset[i+1]
+        for k in range(0, fixed_subset.size, 2):
+            i = fixed_subset[k]
+            s = fixed_subset[k+1]
             for ii in range(i0, i):
                 fullstate[0,ii] = state[0,stateix] 
                 stateix += 1
-- 
2.43.0


From c7df4ba4beb9f81cbb3dc5efa3c949d805765878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 42/50] fix: Hessian of deprecated pseudolikelihood solver left
 out the factor two of the states

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 083739a..28a1bd0 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -1998,7 +1998,7 @@ class Pseudo(Solver):
             Jr0 = np.zeros(self.n)
             Jr0[r] = hList[r]
             
-            XRhat = X.copy()
+            XRhat = 2*X
             XRhat[:,r] = np.ones(len(X))
             # calculate once and pass to hessian algorithm for speed
             pairCoocRhat = self.pair_cooc_mat(XRhat)
-- 
2.43.0


From 829e567bf3f3934d36979b780fabd6becfbbfc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 43/50] fix: ClusterExpansion failed with a mean field
 reference because of rounding in the couplings

---
 coniii/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 28a1bd0..a1df27b 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2505,10 +2505,10 @@ class ClusterExpansion(Solver):
                 ent += deltaSdict[cID]
                 J += deltaJdict[cID]
 
-        # convert J to {-1,1} basis
+        # convert J to {-1,1} basis (J may be symmetric only up to rounding)
         h = -J.diagonal()
         J = -zero_diag(J)
-        self.multipliers = convert_params( h, squareform(J)*2, '11', concat=True )
+        self.multipliers = convert_params( h, squareform(J, checks=False)*2, '11', concat=True )
 
         if full_output:
             return self.multipliers, ent, clusters, deltaSdict, deltaJdict
-- 
2.43.0


From e3939c15d4203c6edfa1192b07dae50325c5d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 44/50] fix: RegularizedMeanField doubled its parameters and
 compared +/-1 samples with 0/1 correlations

---
 coniii/solvers.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index a1df27b..9098feb 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2661,16 +2661,21 @@ class RegularizedMeanField(Solver):
         freqsList = np.diag(coocMatData)
         pmean = np.mean(freqsList)
         
+        # convert J to {-1,1} basis
+        def multipliers(J):
+            h = -J.diagonal()
+            J = -zero_diag((J + J.T)/2)
+            return convert_params( h, squareform(J)*2, '11', concat=True )
+
         # Generate samples from model (need to translate parameters)
         def samples(J):
            self.model.set_rng(get_rng())
            if min_covariance:
                J = tildeJ2normalJ(J, empiricalFreqs)
            burninDefault = 100*self.n
-           J = J + J.T
-           self.model.set_multipliers(np.concatenate([J.diagonal(), squareform(zero_diag(-J))]))
+           self.model.set_multipliers(multipliers(J))
            self.model.generate_sample(burninDefault, 1)
-           return self.model.sample
+           return (self.model.sample+1)/2
 
         # adapted from findJMatrixBruteForce_CoocMat
         def func(meanFieldGammaPrime):
@@ -2720,12 +2725,8 @@ class RegularizedMeanField(Solver):
         J = mean_field_ising.JmeanField(coocMatData,
                                         meanFieldPriorLmbda=meanFieldPriorLmbdaMin,
                                         numSamples=numDataSamples)
-        J = J + J.T
 
-        # convert J to {-1,1} basis
-        h = -J.diagonal()
-        J = -zero_diag(J)
-        self.multipliers = convert_params( h, squareform(J)*2, '11', concat=True )
+        self.multipliers = multipliers(J)
 
         return self.multipliers
 
-- 
2.43.0


From d411cc64b8ff63291db595d6a4b5f262b0cf4ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 45/50] fix: RegularizedMeanField.solve with min_covariance
 failed on an undefined name instead of saying that it is not supported

---
 coniii/solvers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 9098feb..090e300 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2632,6 +2632,8 @@ class RegularizedMeanField(Solver):
         if cooc_cov is None:
             cooc_cov = mean_field_ising.coocSampleCovariance(self.sample)
         
+        if min_covariance:
+            raise NotImplementedError("min_covariance is not currently supported")
         if priorLmbda != 0.:
             raise NotImplementedError("priorLmbda is not currently supported")
             lmbda = priorLmbda / numDataSamples
-- 
2.43.0


From 9bcc1dbfa93e90556b0733455f7253d80f22887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 46/50] fix: coarse_grain_with_func paired columns with
 themselves when no similarity is positive

---
 coniii/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 4b5bd3f..26ee810 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1330,8 +1330,9 @@ def coarse_grain_with_func(X, n_times, sim_func, coarse_func):
     # Combine sets of spins with the largest pairwise correlations
     for coarseix in range(n_times):
         n = coarseX.shape[1]
-        cij = squareform(sim_func(coarseX))
+        cij = squareform(sim_func(coarseX)).astype(float)
         assert cij.shape==(n,n)
+        np.fill_diagonal(cij, -np.inf)  # never pair a col with itself
         ix = list(range(coarseX.shape[1]))
         
         newClusters = []
-- 
2.43.0


From ae160af5d7c6c1a83e4da4cd8f772ea10883900f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 47/50] fix: coarse_grain failed on lattices that are not
 square

---
 coniii/ising/automaton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 96124ce..8b22715 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -124,11 +124,11 @@ def coarse_grain(lattice, factor):
     """
 
     reLattice=np.zeros((lattice.shape[0]//factor, lattice.shape[1]//factor), dtype=np.int16)
-    reL=len(reLattice)
+    reL=reLattice.shape
 
     for i in range(factor):
         for j in range(factor):
-            reLattice+=lattice[i::factor,j::factor][:reL,:reL]
+            reLattice+=lattice[i::factor,j::factor][:reL[0],:reL[1]]
     reLattice=np.sign(reLattice)
     # when there is a tie, randomly choose a direction
     reLattice[reLattice==0]=np.random.choice([-1,1], size=(reLattice==0).sum())
-- 
2.43.0


From 820b79f347681c62581f81651bbf4e97981ba361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 48/50] fix: jit_sample_nearby_vector read beyond its angles
 for several samples of zero width

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 69aa01b..38e9b64 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -2397,7 +2397,7 @@ def jit_sample_nearby_vector(rseed,v,nSamples,otheta,ophi,sigma):
 
     # Generate random vector with roughly Gaussian distribution on spherical surface about z-axis.
     if sigma==0:
-        theta = np.zeros((1))
+        theta = np.zeros((nSamples))
     else:
         theta = np.zeros((nSamples))
         for i in range(nSamples):
-- 
2.43.0


From 292bad8cf8c24f1aef69d245e5c250c83221ab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 49/50] fix: Hessian of pseudoInverseIsing left out the factor
 two of the states

---
 coniii/pseudo_inverse_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/pseudo_inverse_ising.py b/coniii/pseudo_inverse_ising.py
index 42d72bd..33c4cd9 100755
--- a/coniii/pseudo_inverse_ising.py
+++ b/coniii/pseudo_inverse_ising.py
@@ -61,7 +61,7 @@ def pseudoInverseIsing(samples,minSize=0):
         Jr0[r] = hList[r]
         
         # 12.10.2013
-        samplesRhat = data.copy()
+        samplesRhat = 2.*data.copy()
         samplesRhat[:,r] = scipy.ones(len(data))
         # calculate once and pass to hessian algorithm for speed
         pairCoocRhat = pairCoocMat(samplesRhat)
-- 
2.43.0


From 27732a25ccfe0965f9a80fbb1b44595ce082d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 50/50] fix: pseudoLogLikelihood used all rows of J for every
 spin

---
 coniii/pseudo_inverse_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/pseudo_inverse_ising.py b/coniii/pseudo_inverse_ising.py
index 33c4cd9..4ab0748 100755
--- a/coniii/pseudo_inverse_ising.py
+++ b/coniii/pseudo_inverse_ising.py
@@ -217,7 +217,7 @@ def pseudoLogLikelihood(samples,J,minSize=0):
                 
     (Could probably be made more efficient.)
     """
-    return scipy.sum([ conditionalLogLikelihood(r,samples,J,minSize) \
+    return scipy.sum([ conditionalLogLikelihood(r,samples,J[r],minSize) \
                        for r in range(len(J)) ])
 
 
-- 
2.43.0

