From 30bc86b39fec69b1f4f2e438e1d78835d6e6721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:37 +0000
Subject: [PATCH 01/44] fix: save and restore the RNG state in binary mode, as
 pickle requires

---
 package/inference/utils/rng.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/rng.py b/package/inference/utils/rng.py
index 80d1e94..e02dd28 100644
--- a/package/inference/utils/rng.py
+++ b/package/inference/utils/rng.py
@@ -24,7 +24,7 @@ def save_rng(fname='.numpy-rng-state'):
             fname2 = fname + '.2'
             os.rename(fname1, fname2)
         os.rename(fname, fname1)
-    ofile = open(fname, 'w')
+    ofile = open(fname, 'wb')
     pickle.dump((id, state), ofile)
     ofile.close()
     
@@ -35,7 +35,7 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
     The default file name is '.numpy-rng-state'.
     """
     if os.access(fname, os.R_OK | os.W_OK):
-        rng_file = open(fname, 'r')
+        rng_file = open(fname, 'rb')
         id, state = pickle.load(rng_file)
         rng_file.close()
         if id == MT_id:
-- 
2.43.0


From 97c6ff8a2f99c6da6887c70c33a199f3b8b4f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:37 +0000
Subject: [PATCH 02/44] fix: keep the cached Gaussian deviate in the saved RNG
 state

---
 package/inference/utils/rng.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/rng.py b/package/inference/utils/rng.py
index e02dd28..b7a9265 100644
--- a/package/inference/utils/rng.py
+++ b/package/inference/utils/rng.py
@@ -15,7 +15,7 @@ def save_rng(fname='.numpy-rng-state'):
     """
     state = random.get_state()
     if state[0] == MT_id:
-        id, state = state[0], (state[1], state[2]) # (ID, (key, pos)) for MT
+        id, state = state[0], state[1:] # (ID, (key, pos, has_gauss, cached_gaussian)) for MT
     else:
         raise RuntimeError('numpy.random using unrecognized RNG type!')
     if path.exists(fname):
@@ -43,7 +43,7 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
             if notify:
                 print('Recovered RNG state:  %s [%s %s ...] %i' %\
             	    (id, repr(state[0][0]), repr(state[0][1]), state[1]))
-            random.set_state((id, state[0], state[1]))
+            random.set_state((id,) + tuple(state))
         else:
             raise ValueError('Invalid ID for RNG in %s!' % fname)
     else:
-- 
2.43.0


From e97de0088280df0d8c3f8ff142d7bde81688a068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:37 +0000
Subject: [PATCH 03/44] fix: load a store also when its file name is given with
 the suffix

---
 package/inference/utils/ioutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index ea9e41b..3741c8b 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -109,7 +109,7 @@ class ArrayStore(object):
         if fname:
             if not fname.endswith('.npz'):
                 fname = fname + '.npz'
-                self._npz = load(fname)
+            self._npz = load(fname)
         else:
             self._npz = None
         self._fname = fname
@@ -239,9 +239,9 @@ class AttrStore(object):
         if fname:
             if not fname.endswith('.pkl'):
                 fname = fname + '.pkl'
-                ifile = open(fname, 'rb')
-                self._archive = pkl.load(ifile)
-                ifile.close()
+            ifile = open(fname, 'rb')
+            self._archive = pkl.load(ifile)
+            ifile.close()
         else:
             self._archive = None
         self._fname = fname
-- 
2.43.0


From 2f14e6a2fc029714f0089dd482c649ca273a9bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:37 +0000
Subject: [PATCH 04/44] fix: contents() of a store lists names, each once, not
 the new values

---
 package/inference/utils/ioutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 3741c8b..0cdcdb2 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -201,7 +201,7 @@ class ArrayStore(object):
         names = []
         if self._npz:
             names.extend(self._npz.files)  # archive file names will be array names
-        names.extend(list(self._new.values()))
+        names.extend([name for name in self._new if name not in names])
         return names
 
 
@@ -335,7 +335,7 @@ class AttrStore(object):
         names = []
         if self._archive:
             names.extend(list(self._archive.keys()))
-        names.extend(list(self._new.values()))
+        names.extend([name for name in self._new if name not in names])
         return names
 
 
-- 
2.43.0


From 632ff9276330afbceb310dda350719515c4342ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:37 +0000
Subject: [PATCH 05/44] fix: safe_open passes keyword arguments on to the
 opener

---
 package/inference/utils/ioutils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 0cdcdb2..d38e0d1 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -33,10 +33,7 @@ def safe_open(fname, binary=False, opener=None, *args, **kwds):
     """
     backup(fname)
     if opener:
-        if args:
-            fobj = opener(fname, *args, **kwds)
-        else:
-            fobj = opener(fname)
+        fobj = opener(fname, *args, **kwds)
     else:
         if binary is True or binary == 'b':
             fobj = open(fname, 'wb')
-- 
2.43.0


From 14b80f48d62c8997cf9ab1ab20b445b6b7d05b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:39 +0000
Subject: [PATCH 06/44] fix: linstep/logstep use the parameter's range for ends
 not given

---
 package/inference/pie/realparam.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index df6e6ed..a6cad5d 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -119,6 +119,10 @@ class RealParamHandler(ScalarParamHandler):
 
     def linstep(self, lo=None, hi=None, n=10):
         """Step from lo to hi (inclusive) in n equal steps."""
+        if lo is None:
+            lo = self.lo
+        if hi is None:
+            hi = self.hi
         if self.bounded and lo != None:
             if lo < self.lo or lo > self.hi:
                 raise ParamRangeError("lo step out of parameter's allowed range!")
@@ -146,6 +150,10 @@ class RealParamHandler(ScalarParamHandler):
 
     def logstep(self, lo=None, hi=None, n=10):
         """Step from lo to hi (inclusive) in n logarithmic steps."""
+        if lo is None:
+            lo = self.lo
+        if hi is None:
+            hi = self.hi
         if self.bounded and lo != None:
             if lo < self.lo or lo > self.hi:
                 raise ParamRangeError("lo step out of parameter's allowed range!")
-- 
2.43.0


From 760737668a3197ab2e84f7d6ddfa17567c673994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:04 +0000
Subject: [PATCH 07/44] fix: unbounded set keeps the value finite and within
 the allowed range

---
 package/inference/pie/realparam.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index a6cad5d..dc41f43 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -293,10 +293,14 @@ class RealParamHandler(ScalarParamHandler):
                 else:
                     self._set_value(self.lo)
             else:
-                # Use _set_value, since this should be in range.  In fact,
+                if uvalue > 0:
+                    # Divide through by expv so hi*expv cannot overflow.
+                    value = (self.lo/expv + self.hi)/(1./expv + 1.)
+                else:
+                    value = (self.lo + self.hi*expv)/(1. + expv)
                 # I've found just-barely out-of-range results (presumably due
-                # to roundoff at limits) that trigger exceptions using set_value.
-                self._set_value((self.lo + self.hi*expv)/(1. + expv))
+                # to roundoff at limits); keep the value in the allowed range.
+                self._set_value(min(max(value, self.lo), self.hi))
 
     def show(self):
         """Return a string containing the name, value, and doc for the param."""
-- 
2.43.0


From 459ab97be690528959b715edd2feb5eba236a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:23 +0000
Subject: [PATCH 08/44] fix: store data given to SampledGaussian as one array
 or with vector locations

---
 package/inference/pie/gaussian.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 3192bf1..482865b 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -255,9 +255,9 @@ class SampledGaussian(Predictor):
             all = args[0]
             try:
                 rows, cols = all.shape
-                self.locns = all[:,0]
-                self.vals = all[:,1]
-                self.sigmas = all[:,2]
+                self._locns = all[:,0]
+                self._vals = all[:,1]
+                self._sigmas = all[:,2]
             except AttributeError:
             # If *all* is not an array, treat it as a list.
             # Only the list format can handle >1-d locns using
@@ -268,9 +268,9 @@ class SampledGaussian(Predictor):
                     self._locns.append(row[0])
                     self._vals.append(row[1])
                     self._sigmas.append(row[2])
-                self._locns = array(self.locns)
-                self._vals = array(self.vals)
-                self._sigmas = array(self.sigmas)
+                self._locns = array(self._locns)
+                self._vals = array(self._vals)
+                self._sigmas = array(self._sigmas)
             except:
                 raise DataError('Bad data array format!')
                 # *** Should ndata, dimen be _ndata...?  Or eliminate _...?
@@ -279,6 +279,6 @@ class SampledGaussian(Predictor):
         if len(self._locns.shape) == 1:
             self.dimen = 1
         elif len(self._locns.shape) == 2:
-            self.dimen = self.locns.shape[1]
+            self.dimen = self._locns.shape[1]
         else:
             raise DataError('Locations should be scalars or 1-d arrays!')
-- 
2.43.0


From 53a9c5e6c08f8bc0dbb8f2a1232da98d0c5dbf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:23 +0000
Subject: [PATCH 09/44] fix: simulate data with replaced location/sigma arrays,
 zero locations and integer data

---
 package/inference/pie/gaussian.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 482865b..6eacbd8 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -38,13 +38,12 @@ class SampledGaussianHandler(PredictorHandler):
 	    than references to it (e.g., to the original data stored in class
 	    rather than instance variables).
 	    """
-        # Note this presumes the data have a copy method (as do numpy
-        # arrays).  For other data types we might need to use the copy
-        # or deepcopy modules.
+        # Copy to float arrays, so simulated values are not truncated if the
+        # original data are integers.
         if self._using_globals:
-            self.locns = self.locns.copy()
-            self.vals = self.vals.copy()
-            self.sigmas = self.sigmas.copy()
+            self.locns = array(self.locns, float)
+            self.vals = array(self.vals, float)
+            self.sigmas = array(self.sigmas, float)
             self._using_globals = False
         
     def changing_data(self):
@@ -110,19 +109,21 @@ class SampledGaussianHandler(PredictorHandler):
         """
         self.changing_data()
         # Change the data locns/sigmas if necessary.
-        if locns and sigmas:
+        # (Copy them, so sim1() never alters the caller's arrays.)
+        if locns is not None and sigmas is not None:
             if len(locns) != len(sigmas):
                 raise ValueError('locns/sigmas length mismatch!')
-            self.locns = locns
-            self.sigmas = sigmas
-        elif locns:
+            self.locns = array(locns, float)
+            self.sigmas = array(sigmas, float)
+            self.ndata = len(self.locns)
+        elif locns is not None:
             if len(locns) != self.ndata:
                 raise ValueError('Incorrect number of locns!')
-            self.locns = locns
-        elif sigmas:
+            self.locns = array(locns, float)
+        elif sigmas is not None:
             if len(sigmas) != self.ndata:
                 raise ValueError('Incorrect number of sigmas!')
-            self.sigmas = sigmas
+            self.sigmas = array(sigmas, float)
         self.get_prdxns()
         # Sample data via Gaussians.
         self.vals = self.prdxns + self.sigmas*stdnorm.rvs(self.ndata)
@@ -138,10 +139,10 @@ class SampledGaussianHandler(PredictorHandler):
         location and/or sigma for the datum.
         """
         self.changing_data()
-        if locn:
+        if locn is not None:
             # *** Verify locn dimension!
             self.locns[n] = locn
-        if sigma:
+        if sigma is not None:
             self.sigmas[n] = sigma
         self.get_prdxns()
         # Sample datum via Gaussian.
-- 
2.43.0


From e63449b9efd9b6847515cc9206d4fae69da5134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:42 +0000
Subject: [PATCH 10/44] fix: leave the model at, and return, the optimum found
 by optimize

---
 package/inference/pie/inference_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 3e96ac2..2aacfa3 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -528,6 +528,8 @@ class Inference(HasAutoNamed):
                                              ftol=1.e-3, maxit=200, shuffle=True)
         else:
             raise InferenceError('Invalid minimization method specified!')
+        # The last point tried need not be the optimum; go back to it.
+        extremum = self._score(params)
         if self.extremize == maximize:  # adjust for sign reversal
             extremum = -extremum
         if self.use_unbounded:  # Convert unbounded values back to normal.
-- 
2.43.0


From b5c7498a34bcc36ce2057efc72795c30d5a6a74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:46 +0000
Subject: [PATCH 11/44] fix: evaluate the whole grid also when the stepping
 params were moved before

---
 package/inference/pie/inference_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 2aacfa3..9c8c658 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -421,6 +421,8 @@ class Inference(HasAutoNamed):
             vresults = VectorGrid(self.stepping_params, self.varying_params)
         opt_val = None
         nstep = 0
+        # Start from the first grid point, wherever the params were left.
+        self.reset_steps()
         # *** Put try/except around score/optimize so we can return a partial
         # grid if there is a failure after successful calculations.
         while True:
-- 
2.43.0


From 5076caf61da4f57d0f9dc27acb0d37130309590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:46 +0000
Subject: [PATCH 12/44] fix: ignore vargrid when no parameter varies, as
 documented

---
 package/inference/pie/inference_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 9c8c658..95f79dd 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -465,7 +465,7 @@ class Inference(HasAutoNamed):
         if self.varying_params:
             results.opt_val = opt_val
             results.opt_ind = opt_ind
-        if vargrid:
+        if self.varying_params and vargrid:
             vresults.opt_ind = opt_ind
             return results, vresults
         else:
-- 
2.43.0


From 243373a351f36e751d67404c4ebe805dbd178718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:47 +0000
Subject: [PATCH 13/44] fix: a dynamic range of one limits the list of maxima
 too

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 39f8fe7..3c03198 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -99,7 +99,7 @@ class LabeledMaxList:
                 del self.list[self.nmax]
 
         # Check the dynamic range spanned by list members if necessary.
-        if self.dynrange:
+        if self.dynrange is not None:
             top = self.list[0][0]
             i = lo        # We must start at lo in case we inserted at the end.
             while i < len(self.list):
-- 
2.43.0


From 5b341d38d522bcf415731b556bc05cba2674fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:47 +0000
Subject: [PATCH 14/44] fix: limit the dynamic range of an empty list of maxima

---
 package/inference/grid/grid1d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 3c03198..765efac 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -113,6 +113,8 @@ class LabeledMaxList:
         range.  This presumes the elements are the *logarithms* of the
         quantity of interest."""
 
+        if not self.list:
+            return
         logrange = log(dynrange)
         top = self.list[0][0]
         i = 1
-- 
2.43.0


From af0d2b99dfd130fdef0fd38e7e07a76bd4418802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:27 +0000
Subject: [PATCH 15/44] fix: BasicGrid1D.stepfunc evaluates the last point at
 the upper end

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 765efac..3238bd2 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -516,7 +516,7 @@ class BasicGrid1D:
         for i in range(self.n):
             if i == self.n-1:  # Avoid roundoff error at the endpoint.
                 x = self.hi
-            if self.isLin:
+            elif self.isLin:
                 x = self.lo + i*self.step
             else:
                 x = self.lo * exp(i*self.step)
-- 
2.43.0


From 5b55687d5b6c67c1f8c3e318ae199d3b97eaac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:27 +0000
Subject: [PATCH 16/44] fix: BasicGrid1D.vecfunc records maxima in an empty
 list

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 3238bd2..b4a1d60 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -597,7 +597,7 @@ class BasicGrid1D:
 
         # Now look for local maxima, with special treatment for
         # possible "half peaks" at the ends.
-        if self.lml:
+        if self.lml is not None:
             for i in range(2,self.n):
                 if self.valSeq:
                     y3 = self.vals[i-2:i+1, select]
-- 
2.43.0


From 8055b91bcc380ea873b688995478b7581881df66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:27 +0000
Subject: [PATCH 17/44] fix: iteration over a Grid1D

---
 package/inference/grid/grid1d.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index b4a1d60..f9989b5 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -872,13 +872,8 @@ class Grid1D:
         return self.glist[i].point(indx)
 
     def __iter__(self):
-        i = 0
-        while 1:
-            try:
-                yield self.__getitem__[i]
-            except IndexError:
-                raise StopIteration
-            i += 1
+        for i in range(self.totpts):
+            yield self[i]
 
     def firstpass(self, f, select=None, notify=None):
         """Apply func on the base grid."""
-- 
2.43.0


From 5359fca703686e673949b17ec7be997d938288aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:27 +0000
Subject: [PATCH 18/44] fix: Grid1D.logtrapzd_mom without moments called a
 method that does not exist

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index f9989b5..97843d4 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -965,7 +965,7 @@ class Grid1D:
         the 1st and/or 2nd moments."""
 
         if not nmom:
-            return self.trapzd_log(select)
+            return self.logtrapzd(select)
 
         # Sum over the refined grids taking care to avoid overflows.
         vals = []
-- 
2.43.0


From e537445315ff90d83245d615e5945d9e3f9ee1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:54 +0000
Subject: [PATCH 19/44] fix: intervals of a refined log interval list are log
 intervals

---
 package/inference/grid/grid1d.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 97843d4..b9fc2c4 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -218,6 +218,7 @@ class RefinedIntervalList1D:
                 raise ValueError("Zero boundary for log interval!")
         else:
             raise ValueError("Interval stype must be Lin or Log!")
+        self.stype = stype
         self.base = BasicInterval(self.lo, self.hi, n, stype=stype)
 
         # Initialize the list with the base interval.
@@ -325,12 +326,12 @@ class RefinedIntervalList1D:
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m))
+                self._insert(nlo, BasicInterval(int_lo.lo, lo, m, self.stype))
                 nlo = nlo + 1
-            self._insert(nlo, BasicInterval(lo, hi, n))
+            self._insert(nlo, BasicInterval(lo, hi, n, self.stype))
             if int_lo.hi > hi:
                 m = self._numPts(hi, int_lo.hi, int_lo.step)
-                self._insert(nlo+1, BasicInterval(hi, int_lo.hi, m))
+                self._insert(nlo+1, BasicInterval(hi, int_lo.hi, m, self.stype))
             self.merge()
             return
 
@@ -340,19 +341,19 @@ class RefinedIntervalList1D:
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m))
+                self._insert(nlo, BasicInterval(int_lo.lo, lo, m, self.stype))
                 nlo = nlo + 1
                 nhi = nhi + 1        # Shift nhi since we're adding an intvl.
             m = self._numPts(lo, int_lo.hi, step)
-            self._insert(nlo, BasicInterval(lo, int_lo.hi, m))
+            self._insert(nlo, BasicInterval(lo, int_lo.hi, m, self.stype))
             nlo = nlo + 1
         if step < int_hi.step:
             self._del(nhi)
             m = self._numPts(int_hi.lo, hi, step)
-            self._insert(nhi, BasicInterval(int_hi.lo, hi, m))
+            self._insert(nhi, BasicInterval(int_hi.lo, hi, m, self.stype))
             if int_hi.hi > hi:
                 m = self._numPts(hi, int_hi.hi, int_hi.step)
-                self._insert(nhi+1, BasicInterval(hi, int_hi.hi, m))
+                self._insert(nhi+1, BasicInterval(hi, int_hi.hi, m, self.stype))
                 # We needn't update nhi here since range won't include it.
         for i in range(nlo, nhi):
             if self.ilist[i].step > step:
@@ -383,7 +384,7 @@ class RefinedIntervalList1D:
                 n = self.ilist[i].n + self.ilist[i+1].n - 1
                 self._del(i)
                 self._del(i)
-                self._insert(i, BasicInterval(lo, hi, n))
+                self._insert(i, BasicInterval(lo, hi, n, self.stype))
                 self.cumpts[i] = self.cumpts[i+1]
                 del self.cumpts[-1]
             else:
-- 
2.43.0


From 37ba371b0d070e9fd21aae4134b277793a212a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:54 +0000
Subject: [PATCH 20/44] fix: update of a reverse-sense interval list lost the
 upper bound

---
 package/inference/grid/grid1d.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index b9fc2c4..8d36a8e 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -284,8 +284,7 @@ class RefinedIntervalList1D:
             lo = max(lo, self.lo)
             hi = min(hi, self.hi)
         else:
-            lo = max(hi, self.lo)
-            hi = min(lo, self.hi)
+            lo, hi = max(hi, self.lo), min(lo, self.hi)
         if hi <= lo:
             raise ValueError("Interval does not overlap base interval!")
 
-- 
2.43.0


From 6e8e11f09ef2dfd1a50ce41781db16cd1295dfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:54 +0000
Subject: [PATCH 21/44] fix: resampling a log interval keeps the factor between
 its points current

---
 package/inference/grid/grid1d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 8d36a8e..14315e2 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -183,6 +183,7 @@ class BasicInterval:
             self.step = (self.hi-self.lo) / (n-1.)
         else:
             self.step = log(self.hi/self.lo) / (n-1.)
+            self.fac = exp(self.step)
 
 
 ################################################################################
-- 
2.43.0


From 37cb5deb0b8de078c2ab35382f68aaed69ba10b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:24 +0000
Subject: [PATCH 22/44] fix: compare spacings of log intervals in the same
 units, also for negative bounds

---
 package/inference/grid/grid1d.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 14315e2..5addd52 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -311,9 +311,8 @@ class RefinedIntervalList1D:
         hi_int = int_hi.locate(hi)  # returns (i, lo, hi) of grid point pair
         if hi != hi_int[1]:  # if not lo, it's within the grid space; set to hi
             hi = hi_int[2]
-        # Test if resolved.  Use lo_int rather than hi_int, because if
-        # hi happens to hit an endpoint, hi_int's lo == its hi.
-        if 5*step > (lo_int[2]-lo_int[1]):  # resolved
+        # Test if resolved.
+        if 5*abs(step) > abs(int_lo.step):  # resolved
             n = self._numPts(lo, hi, step)
         step = self._stepSize(lo, hi, n)
 
@@ -321,7 +320,7 @@ class RefinedIntervalList1D:
         # unless it undersamples the interval.  Be careful of it exactly matching
         # a boundary, in which case fewer inserts are needed.
         if nlo == nhi:
-            if step >= int_lo.step:  # undersampled; ignore the new interval
+            if abs(step) >= abs(int_lo.step):  # undersampled; ignore the new interval
                 return
             self._del(nlo)
             if lo > int_lo.lo:
@@ -337,7 +336,7 @@ class RefinedIntervalList1D:
 
         # Otherwise, we have to break up the intervals containing the boundaries,
         # and possibly resample intervals completely covered by the new one.
-        if (step < int_lo.step):
+        if abs(step) < abs(int_lo.step):
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
@@ -347,7 +346,7 @@ class RefinedIntervalList1D:
             m = self._numPts(lo, int_lo.hi, step)
             self._insert(nlo, BasicInterval(lo, int_lo.hi, m, self.stype))
             nlo = nlo + 1
-        if step < int_hi.step:
+        if abs(step) < abs(int_hi.step):
             self._del(nhi)
             m = self._numPts(int_hi.lo, hi, step)
             self._insert(nhi, BasicInterval(int_hi.lo, hi, m, self.stype))
@@ -356,7 +355,7 @@ class RefinedIntervalList1D:
                 self._insert(nhi+1, BasicInterval(hi, int_hi.hi, m, self.stype))
                 # We needn't update nhi here since range won't include it.
         for i in range(nlo, nhi):
-            if self.ilist[i].step > step:
+            if abs(self.ilist[i].step) > abs(step):
                 n = self._numPts(self.ilist[i].lo, self.ilist[i].hi,
                                  step)
                 self.ilist[i].resample(n)
-- 
2.43.0


From 6e957897ad873e5a6506beb8e02ae6dc3216c69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:24 +0000
Subject: [PATCH 23/44] fix: subgrid of a log grid with negative bounds

---
 package/inference/grid/grid1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 5addd52..7bde06b 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -807,10 +807,10 @@ class BasicGrid1D:
             hnum = log(hi/self.lo)
             rhi = hnum/self.step
         nlo = int(round(rlo,2))
-        if abs(nlo*self.step-lnum) > 1.e-3*self.step:
+        if abs(nlo*self.step-lnum) > 1.e-3*abs(self.step):
             raise ValueError("lo doesn't match a grid pt!")
         nhi = int(round(rhi,2))
-        if abs(nhi*self.step-hnum) > 1.e-3*self.step:
+        if abs(nhi*self.step-hnum) > 1.e-3*abs(self.step):
             raise ValueError("hi doesn't match a grid pt!")
 
         # Make the grid and copy the data.
-- 
2.43.0


From eebf5acc374001863ffb7a1416b894c498be065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:10 +0000
Subject: [PATCH 24/44] fix: locate in an interval does not overshoot its upper
 bound by roundoff

---
 package/inference/grid/grid1d.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 7bde06b..cfa272a 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -163,16 +163,19 @@ class BasicInterval:
         number and endpoints (i, l, h).  This assumes x is
         in fact in the interval.  If x=hi, then i=n, and l=h=hi."""
 
+        if x == self.hi:
+            return (self.n-1, self.hi, self.hi)
+        # Below hi, roundoff must not give the endpoint or points past it.
         if self.isLin:
-            i = int(floor((x-self.lo)/self.step))
+            i = min(int(floor((x-self.lo)/self.step)), self.n-2)
             l = self.lo + i*self.step
             h = l + self.step
         else:
-            i = int(floor(log(x/self.lo)/self.step))
+            i = min(int(floor(log(x/self.lo)/self.step)), self.n-2)
             l = self.lo * exp(i*self.step)
             h = l * self.fac
-        if (i == self.n-1):
-            h = l
+        if (i == self.n-2):
+            h = self.hi
         return (i, l, h)
 
     def resample(self, n):
-- 
2.43.0


From 88d262ea421cf261a90e4fb4c7bf020d7c3e5b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:32 +0000
Subject: [PATCH 25/44] fix: cutting an interval at a grid point keeps its
 number of points despite roundoff

---
 package/inference/grid/grid1d.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index cfa272a..dfef901 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -310,10 +310,11 @@ class RefinedIntervalList1D:
         # and maintaining density will add too many points.  Just add n points.
         step = self._stepSize(lo, hi, n)
         lo_int = int_lo.locate(lo)
-        lo = lo_int[1]
+        ilo, lo = lo_int[:2]
         hi_int = int_hi.locate(hi)  # returns (i, lo, hi) of grid point pair
+        ihi = hi_int[0]
         if hi != hi_int[1]:  # if not lo, it's within the grid space; set to hi
-            hi = hi_int[2]
+            ihi, hi = ihi+1, hi_int[2]
         # Test if resolved.
         if 5*abs(step) > abs(int_lo.step):  # resolved
             n = self._numPts(lo, hi, step)
@@ -327,12 +328,11 @@ class RefinedIntervalList1D:
                 return
             self._del(nlo)
             if lo > int_lo.lo:
-                m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m, self.stype))
+                self._insert(nlo, BasicInterval(int_lo.lo, lo, ilo+1, self.stype))
                 nlo = nlo + 1
             self._insert(nlo, BasicInterval(lo, hi, n, self.stype))
             if int_lo.hi > hi:
-                m = self._numPts(hi, int_lo.hi, int_lo.step)
+                m = int_lo.n - ihi
                 self._insert(nlo+1, BasicInterval(hi, int_lo.hi, m, self.stype))
             self.merge()
             return
@@ -342,8 +342,7 @@ class RefinedIntervalList1D:
         if abs(step) < abs(int_lo.step):
             self._del(nlo)
             if lo > int_lo.lo:
-                m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m, self.stype))
+                self._insert(nlo, BasicInterval(int_lo.lo, lo, ilo+1, self.stype))
                 nlo = nlo + 1
                 nhi = nhi + 1        # Shift nhi since we're adding an intvl.
             m = self._numPts(lo, int_lo.hi, step)
@@ -354,7 +353,7 @@ class RefinedIntervalList1D:
             m = self._numPts(int_hi.lo, hi, step)
             self._insert(nhi, BasicInterval(int_hi.lo, hi, m, self.stype))
             if int_hi.hi > hi:
-                m = self._numPts(hi, int_hi.hi, int_hi.step)
+                m = int_hi.n - ihi
                 self._insert(nhi+1, BasicInterval(hi, int_hi.hi, m, self.stype))
                 # We needn't update nhi here since range won't include it.
         for i in range(nlo, nhi):
-- 
2.43.0


From bd5a95ac7e7340adb0d7fa44b8b270916eb288bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:00 +0000
Subject: [PATCH 26/44] fix: dllsteps no longer overwrites the caller's guess
 and mle arrays

pk_scales declares its step argument intent(in,out) and moves x in place, so
the guess array was replaced by the result, and mle was left displaced
whenever the search failed or the log likelihood raised.
---
 package/inference/deriv/obsinfo.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/package/inference/deriv/obsinfo.py b/package/inference/deriv/obsinfo.py
index 74ab0b4..f15ed47 100644
--- a/package/inference/deriv/obsinfo.py
+++ b/package/inference/deriv/obsinfo.py
@@ -3,6 +3,8 @@ obsinfo - Tools for calculating the observed Fisher information matrix
 from log-likelihood functions.
 """
 
+from numpy import array
+
 from ._obsinfo import pk_scales, ninfol
 
 __all__ = ['dllsteps', 'obsinfo']
@@ -25,7 +27,10 @@ def dllsteps(loglike, mle, guess, dll=1., maxll=None, maxiter=20, tol=0.01):
     """
     if maxll is None:
         maxll = loglike(mle)
-    deltas, status = pk_scales(loglike, mle, maxll, dll, guess, maxiter, tol)
+    # pk_scales uses its x and dx arguments as work space; pass it copies so
+    # the caller's arrays are untouched.
+    deltas, status = pk_scales(loglike, array(mle, float), maxll, dll,
+                               array(guess, float), maxiter, tol)
     if status == 3:
         raise RuntimeError('Failed to converge in solving for dll scale!')
     elif status == 2:
-- 
2.43.0


From ea9e1b8ac8b05d6a78241b7d4963df2db8d8d80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:00 +0000
Subject: [PATCH 27/44] fix: obsinfo leaves the caller's mle intact when the
 log likelihood raises

---
 package/inference/deriv/obsinfo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/package/inference/deriv/obsinfo.py b/package/inference/deriv/obsinfo.py
index f15ed47..d79a998 100644
--- a/package/inference/deriv/obsinfo.py
+++ b/package/inference/deriv/obsinfo.py
@@ -71,4 +71,6 @@ def obsinfo(loglike, mle, deltas, maxll=None, niter=2):
     # to plain 2nd differences, with no extrapolation).
     if maxll is None:
         maxll = loglike(mle)
-    return ninfol(loglike, mle, maxll, deltas, niter+1)
+    # ninfol moves its mu argument in place; pass it a copy so the caller's
+    # array is intact even if loglike raises.
+    return ninfol(loglike, array(mle, float), maxll, deltas, niter+1)
-- 
2.43.0


From fbefd18616e8d3c8af083b66a5f34f4f1c27ea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:39 +0000
Subject: [PATCH 28/44] fix: pk_scales no longer reports convergence when the
 density is NaN

A flat stretch of the density makes the secant slope zero, the trial point
infinite and the density there possibly NaN; the comparison abs(NaN) .gt. tol
is false, so an infinite or NaN step was returned as a success.
---
 package/inference/deriv/_obsinfo.f | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/deriv/_obsinfo.f b/package/inference/deriv/_obsinfo.f
index acfe4ee..7eabc1a 100644
--- a/package/inference/deriv/_obsinfo.f
+++ b/package/inference/deriv/_obsinfo.f
@@ -99,7 +99,8 @@ c       write(9,'(i5,2(1pg12.4))') nit, x(i), fnew
                 status = 3
                 return
             endif
-            if (abs(fnew-f_c) .gt. tol) then
+c           (Written so that a NaN never counts as convergence.)
+            if (.not. (abs(fnew-f_c) .le. tol)) then
                 x(i) = x(i) + s*dx(i)
                 fp = f(n, x)
                 if (fp .gt. fmax) then
-- 
2.43.0


From 9855358d4aa527aa3e0fa5f05b15c1cbc3ac9090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:53 +0000
Subject: [PATCH 29/44] fix: OnOff.pnsig(0) returns the probability of no
 signal counts

The test "if n:" took n=0 for a missing argument and returned the whole array.
---
 package/inference/count/onoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index 03efa77..ab9086d 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -202,7 +202,7 @@ class OnOff(object):
         if self.p_signal is None:
             self.p_signal = sigctp(self.on_cts, self.on_intvl,
                                    self.off_cts, self.off_intvl)
-        if n:
+        if n is not None:
             if n < 0 or n > self.on_cts:
                 raise ValueError('Number of source counts must be <= on_cts!')
             return self.p_signal[n]
-- 
2.43.0


From 06232bb4b4e642e87bdc267af6cad87d1e162f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:53 +0000
Subject: [PATCH 30/44] fix: OnOff.pnsig returns a copy of the cached
 probabilities

A slice of a numpy array is a view: changing the result changed all later
sigmp and pnsig results.
---
 package/inference/count/onoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index ab9086d..cb09826 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -207,7 +207,7 @@ class OnOff(object):
                 raise ValueError('Number of source counts must be <= on_cts!')
             return self.p_signal[n]
         else:
-            return self.p_signal[:]  # return copy so cache can't be altered
+            return self.p_signal.copy()  # return copy so cache can't be altered
 
 
 # Interim documentation for the underlying Fortran extension module.
-- 
2.43.0


From 91f4d60018b4a2c144277c1497474a29866ad423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:53 +0000
Subject: [PATCH 31/44] fix: OnOff.siglml and sigmp no longer truncate results
 for integer arrays

---
 package/inference/count/onoff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index cb09826..c573b51 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -106,7 +106,7 @@ class OnOff(object):
         except TypeError:
             if len(s.shape) != 1:
                 raise ValueError('sigll handles only 1-D arrays!')
-            llvals = zeros_like(s)
+            llvals = zeros_like(s, dtype=float)
             for i, sval in enumerate(s):
                 llvals[i], nt, err = slmlike(sval, self.on_cts, self.on_intvl,
                                              self.off_cts, self.off_intvl, self.offset, self.cutoff)
@@ -164,7 +164,7 @@ class OnOff(object):
         except TypeError:
             if len(s.shape) != 1:
                 raise ValueError('sigll handles only 1-D arrays!')
-            llvals = zeros_like(s)
+            llvals = zeros_like(s, dtype=float)
             for i, sval in enumerate(s):
                 llvals[i] = psigc(sval, self.on_intvl, self.p_signal)
             return llvals
-- 
2.43.0


From 9f73970c4c9388b1854b5592119af0a6c59ae751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:16 +0000
Subject: [PATCH 32/44] fix: adapt_vec workspace size was a float and every
 call raised TypeError under Python 3

---
 package/inference/integrate/adapt_vec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/integrate/adapt_vec.py b/package/inference/integrate/adapt_vec.py
index ff8f1e6..01c7384 100644
--- a/package/inference/integrate/adapt_vec.py
+++ b/package/inference/integrate/adapt_vec.py
@@ -39,14 +39,14 @@ def adapt_vec(nfuncs, vfunc, lower, upper, releps,
         num = 127
     elif (key == 0 and ndim >= 3) or key == 3:
         num = 1 + 8*ndim + 2*ndim*(ndim-1) + 4*ndim*(ndim-1) + \
-            4*ndim*(ndim-1)*(ndim-2)/3 + 2**ndim
+            4*ndim*(ndim-1)*(ndim-2)//3 + 2**ndim
     elif key == 4:
         num = 1 + 6*ndim + 2*ndim*(ndim-1) + 2**ndim
     else:
         raise ValueError('Illegal key value!')
 
     # Calculate the max number of subregions, and workspace size.
-    maxsub = (maxpts-num)/(2*num) + 1
+    maxsub = (maxpts-num)//(2*num) + 1
     nw = maxsub*(2*ndim+2*nfuncs+2) + 17*nfuncs + 1
     work = zeros(nw, float)
     print('Rule size, max subregions, workspace size:', num, maxsub, nw)
-- 
2.43.0


From ab117d600f1f2c5766394c007c70662387437eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:16 +0000
Subject: [PATCH 33/44] fix: cubature rules e2r2_9_19a, 11_28c and 13_41 missed
 the half-angle rotation of rings and were not of their degree

---
 package/inference/integrate/_cub2d_auto.py | 64 +++++++++++-----------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/package/inference/integrate/_cub2d_auto.py b/package/inference/integrate/_cub2d_auto.py
index c80c7ad..9001c27 100644
--- a/package/inference/integrate/_cub2d_auto.py
+++ b/package/inference/integrate/_cub2d_auto.py
@@ -292,16 +292,16 @@ def e2r2_5_9a(func):
 
 
 e2r2_13_41_absc = array(
-    [[   2.4494897427831779e+00,    0.0000000000000000e+00],
-     [   1.9816788294587098e+00,    1.4397739464496353e+00],
-     [   7.5693395806712094e-01,    2.3296031814720810e+00],
-     [  -7.5693395806712049e-01,    2.3296031814720810e+00],
-     [  -1.9816788294587093e+00,    1.4397739464496355e+00],
-     [  -2.4494897427831779e+00,    2.9997597730436923e-16],
-     [  -1.9816788294587100e+00,   -1.4397739464496351e+00],
-     [  -7.5693395806712116e-01,   -2.3296031814720810e+00],
-     [   7.5693395806712016e-01,   -2.3296031814720810e+00],
-     [   1.9816788294587091e+00,   -1.4397739464496360e+00],
+    [[   2.3296031814720810e+00,    7.5693395806712060e-01],
+     [   1.4397739464496353e+00,    1.9816788294587098e+00],
+     [   0.0000000000000000e+00,    2.4494897427831779e+00],
+     [  -1.4397739464496351e+00,    1.9816788294587098e+00],
+     [  -2.3296031814720810e+00,    7.5693395806712094e-01],
+     [  -2.3296031814720815e+00,   -7.5693395806711938e-01],
+     [  -1.4397739464496355e+00,   -1.9816788294587093e+00],
+     [   0.0000000000000000e+00,   -2.4494897427831779e+00],
+     [   1.4397739464496349e+00,   -1.9816788294587100e+00],
+     [   2.3296031814720810e+00,   -7.5693395806712116e-01],
      [   9.2897653516474088e-01,    0.0000000000000000e+00],
      [   7.5155780432383135e-01,    5.4603870709559477e-01],
      [   2.8706953674146096e-01,    8.8350918725372063e-01],
@@ -365,12 +365,12 @@ def e2r2_13_41(func):
 
 
 e2r2_9_19a_absc = array(
-    [[   2.0000000000000000e+00,    0.0000000000000000e+00],
-     [   1.0000000000000002e+00,    1.7320508075688772e+00],
-     [  -9.9999999999999967e-01,    1.7320508075688774e+00],
-     [  -2.0000000000000000e+00,    2.4492935982947064e-16],
-     [  -1.0000000000000009e+00,   -1.7320508075688767e+00],
-     [   9.9999999999999867e-01,   -1.7320508075688781e+00],
+    [[   1.7320508075688774e+00,    9.9999999999999989e-01],
+     [   0.0000000000000000e+00,    2.0000000000000000e+00],
+     [  -1.7320508075688774e+00,    9.9999999999999989e-01],
+     [  -1.7320508075688776e+00,   -9.9999999999999944e-01],
+     [   0.0000000000000000e+00,   -2.0000000000000000e+00],
+     [   1.7320508075688767e+00,   -1.0000000000000009e+00],
      [   1.1024690870412086e+00,    0.0000000000000000e+00],
      [   5.5123454352060441e-01,    9.5476623626472401e-01],
      [  -5.5123454352060408e-01,    9.5476623626472423e-01],
@@ -405,22 +405,22 @@ def e2r2_9_19a(func):
 
 
 e2r2_11_28c_absc = array(
-    [[   2.2360679774997898e+00,    0.0000000000000000e+00],
-     [   1.5811388300841895e+00,    1.5811388300841898e+00],
-     [   1.3691967456605067e-16,    2.2360679774997898e+00],
-     [  -1.5811388300841895e+00,    1.5811388300841898e+00],
-     [  -2.2360679774997898e+00,    2.7383934913210134e-16],
-     [  -1.5811388300841902e+00,   -1.5811388300841893e+00],
-     [  -4.1075902369815199e-16,   -2.2360679774997898e+00],
-     [   1.5811388300841893e+00,   -1.5811388300841902e+00],
-     [   1.3765979318520745e+00,    0.0000000000000000e+00],
-     [   8.4292312547775463e-17,    1.3765979318520745e+00],
-     [  -1.3765979318520745e+00,    1.6858462509555093e-16],
-     [  -2.5287693764332635e-16,   -1.3765979318520745e+00],
-     [   2.6825150931410771e+00,    0.0000000000000000e+00],
-     [   1.6425667612398419e-16,    2.6825150931410771e+00],
-     [  -2.6825150931410771e+00,    3.2851335224796838e-16],
-     [  -4.9277002837195262e-16,   -2.6825150931410771e+00],
+    [[   2.0658574377159642e+00,    8.5570616863128390e-01],
+     [   8.5570616863128401e-01,    2.0658574377159642e+00],
+     [  -8.5570616863128379e-01,    2.0658574377159642e+00],
+     [  -2.0658574377159642e+00,    8.5570616863128413e-01],
+     [  -2.0658574377159646e+00,   -8.5570616863128368e-01],
+     [  -8.5570616863128512e-01,   -2.0658574377159638e+00],
+     [   8.5570616863128446e-01,   -2.0658574377159642e+00],
+     [   2.0658574377159638e+00,   -8.5570616863128524e-01],
+     [   9.7340173257997875e-01,    9.7340173257997864e-01],
+     [  -9.7340173257997864e-01,    9.7340173257997875e-01],
+     [  -9.7340173257997886e-01,   -9.7340173257997864e-01],
+     [   9.7340173257997842e-01,   -9.7340173257997886e-01],
+     [   1.8968246129953188e+00,    1.8968246129953186e+00],
+     [  -1.8968246129953186e+00,    1.8968246129953188e+00],
+     [  -1.8968246129953192e+00,   -1.8968246129953186e+00],
+     [   1.8968246129953183e+00,   -1.8968246129953192e+00],
      [   6.1791116665497925e-01,    0.0000000000000000e+00],
      [   3.7836146620071352e-17,    6.1791116665497925e-01],
      [  -6.1791116665497925e-01,    7.5672293240142704e-17],
-- 
2.43.0


From 9b60e8c616d5f399cee19e7017837a1a1d7b9560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:27 +0000
Subject: [PATCH 34/44] fix: adapt returned None, without an error, when the
 routine rejected its arguments (ifail 3)

---
 package/inference/integrate/adapt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/integrate/adapt.py b/package/inference/integrate/adapt.py
index 241ee2d..477ed3c 100644
--- a/package/inference/integrate/adapt.py
+++ b/package/inference/integrate/adapt.py
@@ -91,3 +91,5 @@ def adapt(func, lower, upper, relacc, maxfac=100, wrkfac=1):
     raise RuntimeError('Failed to achieve specified accuracy; increase maxfac!')
   elif ifail == 2:
     raise RuntimeError('Failed to achieve specified accuracy; increase wrkfac!')
+  else:
+    raise ValueError('Illegal input:  the dimension must be in [2,20], and maxfac >= 1!')
-- 
2.43.0


From 4b8d93efa310ca9488f4ddc015ed67a6d5cf4d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:27 +0000
Subject: [PATCH 35/44] fix: adapt ignored maxfac and wrkfac

---
 package/inference/integrate/adapt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/package/inference/integrate/adapt.py b/package/inference/integrate/adapt.py
index 477ed3c..0b73170 100644
--- a/package/inference/integrate/adapt.py
+++ b/package/inference/integrate/adapt.py
@@ -60,7 +60,7 @@ def adapt_sizes(ndim, maxfac=100):
   """
   rulcls = 2**ndim + 2*ndim**2 + 6*ndim + 1
   minpts, maxpts = rulcls, maxfac*rulcls
-  lenwrk = (2*ndim + 3) * (1 + maxfac) / 2
+  lenwrk = -(-(2*ndim + 3) * (1 + maxfac) // 2)  # rounded up
   return minpts, maxpts, lenwrk
 
 
@@ -82,7 +82,8 @@ def adapt(func, lower, upper, relacc, maxfac=100, wrkfac=1):
     err = estimate of relative error of result
     ntps = # of function evaluations used
   """
-  minpts, maxpts, lenwrk = adapt_sizes(len(lower))
+  minpts, maxpts, lenwrk = adapt_sizes(len(lower), maxfac)
+  lenwrk = wrkfac*lenwrk
   npts, err, result, ifail = _adapt.adapt(lower, upper, minpts, maxpts,
                                           func, relacc, lenwrk)
   if ifail == 0:
-- 
2.43.0


From 7d51dd9c2eb49520f39bd58c1d3bf3bfb346fe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:11 +0000
Subject: [PATCH 36/44] fix: xvalues wrote past the end of xvals when an upward
 crossing exceeded nxvmax

---
 package/inference/grid/_gridquad.f | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/package/inference/grid/_gridquad.f b/package/inference/grid/_gridquad.f
index 94366de..349021d 100644
--- a/package/inference/grid/_gridquad.f
+++ b/package/inference/grid/_gridquad.f
@@ -102,6 +102,10 @@ cf2py intent(out) xvals, nx, ok
 	do 20 i=1, n-1
 	    if (yarr(i) .lt. ycrit .and. yarr(i+1) .gt. ycrit) then
 	        nx = nx + 1
+	        if (nx .gt. nxvmax) then
+	            ok = .false.
+	            return
+	        endif
 	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) *
      *            (ycrit - yarr(i)) / (yarr(i+1) - yarr(i))
 	    else if (yarr(i+1) .lt. ycrit .and. yarr(i) .gt. ycrit) then
-- 
2.43.0


From 21517db608c97752e8ce23d8b4c823b498c1884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:11 +0000
Subject: [PATCH 37/44] fix: xvalues missed crossings that fall exactly on a
 grid point

---
 package/inference/grid/_gridquad.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/_gridquad.f b/package/inference/grid/_gridquad.f
index 349021d..d99ad26 100644
--- a/package/inference/grid/_gridquad.f
+++ b/package/inference/grid/_gridquad.f
@@ -100,7 +100,7 @@ cf2py intent(out) xvals, nx, ok
 	ok = .true.
 	nx = 0
 	do 20 i=1, n-1
-	    if (yarr(i) .lt. ycrit .and. yarr(i+1) .gt. ycrit) then
+	    if (yarr(i) .le. ycrit .and. yarr(i+1) .gt. ycrit) then
 	        nx = nx + 1
 	        if (nx .gt. nxvmax) then
 	            ok = .false.
@@ -108,7 +108,7 @@ cf2py intent(out) xvals, nx, ok
 	        endif
 	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) *
      *            (ycrit - yarr(i)) / (yarr(i+1) - yarr(i))
-	    else if (yarr(i+1) .lt. ycrit .and. yarr(i) .gt. ycrit) then
+	    else if (yarr(i+1) .le. ycrit .and. yarr(i) .gt. ycrit) then
 	        nx = nx + 1
 	        if (nx .gt. nxvmax) then
 	            ok = .false.
-- 
2.43.0


From ce3d4ac0d7b57b5cf5f7b2b0a80b293a9ffb1836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:11 +0000
Subject: [PATCH 38/44] fix: HPD normalisation omitted regions where the
 density is flat at its minimum

---
 package/inference/grid/hpd.py     | 4 ++--
 package/inference/grid/hpdgrid.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index c783d9f..b8825f4 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -128,7 +128,7 @@ class HPD1D(object):
             for i, x in enumerate(self.xvals):
                 self.spdf[i] = self.spdf[i]*x
         # Find the overall normalization for spdf.
-        self.snorm = qgt1d(self.spdf, self.spdf.min())*self.dx
+        self.snorm = qgt1d(self.spdf, 0.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.snorm) + self.max
         self.probs = []
@@ -243,7 +243,7 @@ class HPD2D(object):
             for j, y in enumerate(self.yvals):
                 self.spdf[:,j] = self.spdf[:,j]*y
         # Find the overall normalization for spdf.
-        self.norm = qgt2d(self.spdf, self.spdf.min())*self.dx*self.dy
+        self.norm = qgt2d(self.spdf, 0.)*self.dx*self.dy
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.norm) + self.max
         self.probs = []
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 5a4338c..b7127ba 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -137,7 +137,7 @@ class HPDGrid1D(object):
             for i, x in enumerate(self.xvals):
                 self.spdf[i] = self.spdf[i]*x
         # Find the overall normalization for spdf.
-        self.snorm = qgt1d(self.spdf, self.spdf.min())*self.dx
+        self.snorm = qgt1d(self.spdf, 0.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.snorm) + self.max
         self.probs = []
@@ -261,7 +261,7 @@ class HPDGrid2D(object):
             for j, y in enumerate(self.yvals):
                 self.spdf[:,j] = self.spdf[:,j]*y
         # Find the overall normalization for spdf.
-        self.norm = qgt2d(self.spdf, self.spdf.min())*self.dx*self.dy
+        self.norm = qgt2d(self.spdf, 0.)*self.dx*self.dy
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.norm) + self.max
         self.probs = []
-- 
2.43.0


From 6ceec130ba6fc36354941fe4fa0049935ebb4572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:11 +0000
Subject: [PATCH 39/44] fix: HPD interval bounds on log-stepped grids used p(x)
 instead of p(log x)

---
 package/inference/grid/hpd.py     | 4 +++-
 package/inference/grid/hpdgrid.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index b8825f4..99f0c79 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -124,9 +124,11 @@ class HPD1D(object):
         self.max = logpdf.max()
         self.spdf = exp(logpdf-self.max)  # scaled PDF
         # For log steps, change variables to log(x).
+        self.slogpdf = logpdf - self.max
         if not self.linstep:
             for i, x in enumerate(self.xvals):
                 self.spdf[i] = self.spdf[i]*x
+            self.slogpdf = self.slogpdf + log(self.xvals)
         # Find the overall normalization for spdf.
         self.snorm = qgt1d(self.spdf, 0.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
@@ -177,7 +179,7 @@ class HPD1D(object):
         self.deltas.append(logratio)
         self.levels.append(self.max+logratio)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
-        bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
+        bounds, nb, ok = xvalues(self.xvals, self.slogpdf, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index b7127ba..e0bf1c1 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -133,9 +133,11 @@ class HPDGrid1D(object):
         self.max = logpdf.max()
         self.spdf = exp(logpdf-self.max)  # scaled PDF
         # For log steps, change variables to log(x).
+        self.slogpdf = logpdf - self.max
         if not self.linstep:
             for i, x in enumerate(self.xvals):
                 self.spdf[i] = self.spdf[i]*x
+            self.slogpdf = self.slogpdf + log(self.xvals)
         # Find the overall normalization for spdf.
         self.snorm = qgt1d(self.spdf, 0.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
@@ -187,7 +189,7 @@ class HPDGrid1D(object):
         self.deltas.append(logratio)
         self.levels.append(self.max+logratio)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
-        bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
+        bounds, nb, ok = xvalues(self.xvals, self.slogpdf, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
-- 
2.43.0


From ae839699244fa4b61aca0a67aa4b7878f774c889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:20 +0000
Subject: [PATCH 40/44] fix: zbracket moved only one end, away from the zero,
 where the function is flat (HPD levels of nearly flat densities)

---
 package/inference/utils/numutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/utils/numutils.py b/package/inference/utils/numutils.py
index 71340db..d8290a3 100644
--- a/package/inference/utils/numutils.py
+++ b/package/inference/utils/numutils.py
@@ -195,7 +195,8 @@ def zbracket(func, x1, x2, vals=None, args=None, maxtries=50, expand=1.6):
         tries += 1
         if f1*f2 < 0.:
             return x1, x2
-        if abs(f1) < abs(f2):
+        # Where func is flat, move the ends alternately.
+        if abs(f1) < abs(f2) or (f1 == f2 and tries % 2 == 0):
             x1 += expand*(x1-x2)
             if args:
                 f1 = func(*(x1,)+args)
-- 
2.43.0


From 80dca2a2e1720c475ac1061f07ac1d1401f45281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:43 +0000
Subject: [PATCH 41/44] fix: add_sim simulates and stores the values of the
 additional data

The values were never drawn, the number of data was wrong, a location at
zero was ignored and array arguments raised.
---
 package/inference/pie/gaussian.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 6eacbd8..64a3cc0 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -160,25 +160,22 @@ class SampledGaussianHandler(PredictorHandler):
         """
         self.changing_data()
         # First adjust locns and sigmas.
-        if locn and sigma:
-            self.ndata += 1
-            self.locns = concatenate( (self.locns, (locn,)) )
-            self.sigmas = concatenate( (self.sigmas, (sigma,)) )
-        elif locns and sigmas:
-            if len(locns) != len(sigmas):
-                raise ValueError('locns/sigmas length mismatch!')
-            self.ndata += len(locns)
-            self.locns = concatenate( (self.locns, locns) )
-            self.sigmas = concatenate( (self.sigmas, sigmas) )
-        self.ndata += len(self.locns)
-        if len(self.locns.shape) == 1:
-            self.dimen = 1
-        elif len(self._locns.shape) == 2:
-            self.dimen = self.locns.shape[1]
-        else:
-            raise DataError('Locations should be scalars or 1-d arrays!')
+        if locn is not None and sigma is not None:
+            locns, sigmas = (locn,), (sigma,)
+        elif locns is None or sigmas is None:
+            raise ValueError('Need both locations and sigmas!')
+        if len(locns) != len(sigmas):
+            raise ValueError('locns/sigmas length mismatch!')
+        nold = self.ndata
+        self.locns = concatenate( (self.locns, locns) )
+        self.sigmas = concatenate( (self.sigmas, sigmas) )
+        self.ndata = len(self.locns)
         # Update predictions.
         self.get_prdxns()
+        # Sample the new data via Gaussians.
+        new = self.prdxns[nold:] + \
+            self.sigmas[nold:]*stdnorm.rvs(self.ndata - nold)
+        self.vals = concatenate( (self.vals, new) )
         
 
 # *** Add method to restore to original (not simulated) data?
-- 
2.43.0


From 8174e7cc0a06a5046af1f56430a5e8b5935b21fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:03 +0000
Subject: [PATCH 42/44] fix: locations given as vectors of length one are
 passed to signal like other vectors

They were passed as arrays, so that the residuals became a square matrix.
---
 package/inference/pie/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 64a3cc0..7712547 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -69,7 +69,7 @@ class SampledGaussianHandler(PredictorHandler):
         try:
             self.prdxns = self.owner.signals(self.locns)
         except NotImplementedError:
-            if self.dimen == 1:
+            if len(self.locns.shape) == 1:
                 self.prdxns = [self.owner.signal(locn) for locn in self.locns]
             else:
                 self.prdxns = [self.owner.signal(*locn) for locn in self.locns]
-- 
2.43.0


From 353a689ab8ee8f5fb21edd22b79c0b15302c938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:49 +0000
Subject: [PATCH 43/44] fix: slmliked derivative at zero signal with no counts
 (was NaN)

---
 package/inference/count/_cbmlike.f | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/package/inference/count/_cbmlike.f b/package/inference/count/_cbmlike.f
index 7c7d2e7..6148e1e 100644
--- a/package/inference/count/_cbmlike.f
+++ b/package/inference/count/_cbmlike.f
@@ -479,6 +479,10 @@ c---  Treat s=0 specially, to avoid log(0) calls.
             arg1 = n_on + n_off + 1.
             arg2 = n_on + 1.
             sll = gammln(arg1) - gammln(arg2) - offset
+            if (n_on .eq. 0) then
+                dsll = - t_on
+                return
+            endif
             arg1 = arg1 - 1.
             arg2 = arg2 - 1.
             term = log(1. + t_off/t_on) + gammln(arg1) - gammln(arg2)
-- 
2.43.0


From e21b6723ab1158306e1ac634a47037fedf883f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:01 +0000
Subject: [PATCH 44/44] fix: on/off likelihood series overflowed for terms
 within the accepted range

---
 package/inference/count/_cbmlike.f | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/count/_cbmlike.f b/package/inference/count/_cbmlike.f
index 6148e1e..9382d96 100644
--- a/package/inference/count/_cbmlike.f
+++ b/package/inference/count/_cbmlike.f
@@ -372,7 +372,7 @@ c----  First work down from the largest term.
         k = km
 20          k = k - 1
             if (k .ge. 0.) then
-                term = term * (nn - k) * (k + 1.) / (stt*(n_on - k))
+                term = term * ((nn - k) * (k + 1.) / (stt*(n_on - k)))
                 slike = slike + term
                 nt = nt + 1
                 if (term .gt. low) goto 20
@@ -383,7 +383,7 @@ c---  Now work up from the largest term.
         k = km
 40          k = k + 1
             if (k .le. n_on) then
-                term = term * stt * (n_on - k + 1.) / (k*(nn - k + 1.))
+                term = term * (stt*(n_on - k + 1.) / (k*(nn - k + 1.)))
                 slike = slike + term
                 nt = nt + 1
                 if (term .gt. low) goto 40
@@ -530,7 +530,7 @@ c----  First work down from the largest term.
         k = km
 20            k = k - 1
             if (k .ge. 0.) then
-                term = term * (nn - k) * (k + 1.) / (stt*(n_on - k))
+                term = term * ((nn - k) * (k + 1.) / (stt*(n_on - k)))
                 slike = slike + term
                 dsl = dsl + term*(k/s - t_on)
                 nt = nt + 1
@@ -542,7 +542,7 @@ c---  Now work up from the largest term.
         k = km
 40            k = k + 1
             if (k .le. n_on) then
-                term = term * stt * (n_on - k + 1.) / (k*(nn - k + 1.))
+                term = term * (stt*(n_on - k + 1.) / (k*(nn - k + 1.)))
                 slike = slike + term
                 dsl = dsl + term*(k/s - t_on)
                 nt = nt + 1
-- 
2.43.0

