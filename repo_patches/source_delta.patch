From 0690ab77f3c8cc104c5fb0aedc3ea98560d23bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 01/47] fix: LogSAS/Multipole shear projection for 3d
 coordinates used z3 twice

---
 include/ProjectHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ProjectHelper.h b/include/ProjectHelper.h
index 338e635..e8bba5c 100644
--- a/include/ProjectHelper.h
+++ b/include/ProjectHelper.h
@@ -422,7 +422,7 @@ struct ProjectHelper<ThreeD>
         Position<Sphere> p2(c2.getPos());
         Position<Sphere> p3(c3.getPos());
         // Use the Sphere implementation with these positions.
-        ProjectHelper<Sphere>::ProjectX<D>(p1,p2,p3,z1,z3,z3);
+        ProjectHelper<Sphere>::ProjectX<D>(p1,p2,p3,z1,z2,z3);
     }
 
     static std::complex<double> ExpIPhi(
-- 
2.43.0


From 386033137378344f1e1e419cdc7d337b3b90096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 02/47] fix: assign points equidistant from two patch centers
 to only one patch when selecting a single patch

---
 src/KMeans.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index 8ceb09c..5fbf3e8 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -977,7 +977,8 @@ void SelectPatch(int patch, py::array_t<double>& cenp, int npatch,
                 double qy = centers[3*q+1];
                 double qz = centers[3*q+2];
                 double q_dsq = SQR(x[i]-qx) + SQR(y[i]-qy) + SQR(z[i]-qz);
-                if (q_dsq < p_dsq) {
+                // Note: Ties go to the lower index to match QuickAssign.
+                if (q_dsq < p_dsq || (q_dsq == p_dsq && q < patch)) {
                     use[i] = 0;
                     break;
                 }
@@ -999,7 +1000,8 @@ void SelectPatch(int patch, py::array_t<double>& cenp, int npatch,
                 double qx = centers[2*q];
                 double qy = centers[2*q+1];
                 double q_dsq = SQR(x[i]-qx) + SQR(y[i]-qy);
-                if (q_dsq < p_dsq) {
+                // Note: Ties go to the lower index to match QuickAssign.
+                if (q_dsq < p_dsq || (q_dsq == p_dsq && q < patch)) {
                     use[i] = 0;
                     break;
                 }
-- 
2.43.0


From 1b29c5d0072f6ab60f10ea0261420dd2b53aa36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 03/47] fix: bin_slop tolerance for Linear binning must be in
 the same units as the separations

---
 treecorr/corr2base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 09a3cd8..d1844e9 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -473,7 +473,7 @@ class Corr2(object):
         self._ro.angle_slop = get(self.config,'angle_slop',float,self._default_angle_slop)
         if self.bin_slop < 0.0:
             self._ro.bin_slop = min(max_good_slop, 1.0)
-        self._ro.b = self.bin_size * self.bin_slop
+        self._ro.b = self._bin_size * self.bin_slop
         if self.bin_slop > max_good_slop + 0.0001 and self.angle_slop > 0.1:
             self.logger.warning(
                 "Using bin_slop = %g, angle_slop = %g, bin_size = %g (b = %g).\n"%(
-- 
2.43.0


From 799ae766c38075efcc5da9c50dc0ec6fca096157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 04/47] fix: do not drop pairs within a cell whose separation
 is exactly min_sep

---
 src/Corr2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index ccebc52..76dbdb2 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -280,7 +280,8 @@ template <int B, int M, int P, int C>
 void BaseCorr2::process2(const BaseCell<C>& c12, const MetricHelper<M,P>& metric)
 {
     if (c12.getW() == 0.) return;
-    if (c12.getSize() <= _halfminsep) return;
+    // Note: Pairs with separation exactly equal to minsep are in range.
+    if (c12.getSize() == 0. || c12.getSize() < _halfminsep) return;
 
     Assert(c12.getLeft());
     Assert(c12.getRight());
-- 
2.43.0


From 3ec81c1829be1083f04ff393946bdeaebc7eb693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 05/47] fix: count pairs and triangles in cells whose total
 weight happens to be zero

---
 src/Corr2.cpp |  2 --
 src/Corr3.cpp | 24 ------------------------
 2 files changed, 26 deletions(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index 76dbdb2..5b68530 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -279,7 +279,6 @@ void BaseCorr2::process(const BaseField<C>& field1, const BaseField<C>& field2,
 template <int B, int M, int P, int C>
 void BaseCorr2::process2(const BaseCell<C>& c12, const MetricHelper<M,P>& metric)
 {
-    if (c12.getW() == 0.) return;
     // Note: Pairs with separation exactly equal to minsep are in range.
     if (c12.getSize() == 0. || c12.getSize() < _halfminsep) return;
 
@@ -297,7 +296,6 @@ void BaseCorr2::process11(const BaseCell<C>& c1, const BaseCell<C>& c2,
     //set_verbose(2);
     xdbg<<"Start process11 for "<<c1.getPos()<<",  "<<c2.getPos()<<"   ";
     xdbg<<"w = "<<c1.getW()<<", "<<c2.getW()<<std::endl;
-    if (c1.getW() == 0. || c2.getW() == 0.) return;
 
     const Position<C>& p1 = c1.getPos();
     const Position<C>& p2 = c2.getPos();
diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index b93d8bb..acb48c0 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -431,10 +431,6 @@ void BaseCorr3::process3(const BaseCell<C>& c1, const MetricHelper<M,0>& metric)
     xdbg<<ws()<<"Process3: c1 = "<<c1.getPos()<<"  "<<c1.getSize()<<"  "<<c1.getN()<<std::endl;
     xdbg<<ws()<<"Process3: c1 = "<<indices(c1)<<"\n";
 
-    if (c1.getW() == 0) {
-        xdbg<<ws()<<"    w == 0.  return\n";
-        return;
-    }
     if (c1.getSize() < _halfminsep) {
         xdbg<<ws()<<"    size < halfminsep.  return\n";
         return;
@@ -465,14 +461,6 @@ void BaseCorr3::process12(const BaseCell<C>& c1, const BaseCell<C>& c2,
     xdbg<<"ordered = "<<O<<std::endl;
 
     // Some trivial stoppers:
-    if (c1.getW() == 0) {
-        xdbg<<ws()<<"    w1 == 0.  return\n";
-        return;
-    }
-    if (c2.getW() == 0) {
-        xdbg<<ws()<<"    w2 == 0.  return\n";
-        return;
-    }
     double s2 = c2.getSize();
     if (BinTypeHelper<B>::tooSmallS2(s2, _halfminsep, _minu, _minv))
     {
@@ -540,18 +528,6 @@ void BaseCorr3::process111(
     xdbg<<"ordered = "<<O<<std::endl;
 
     // Does all triangles with 1 point each in c1, c2, c3
-    if (c1.getW() == 0) {
-        xdbg<<ws()<<"    w1 == 0.  return\n";
-        return;
-    }
-    if (c2.getW() == 0) {
-        xdbg<<ws()<<"    w2 == 0.  return\n";
-        return;
-    }
-    if (c3.getW() == 0) {
-        xdbg<<ws()<<"    w3 == 0.  return\n";
-        return;
-    }
 
     // Calculate the distances if they aren't known yet
     double s=0.;
-- 
2.43.0


From 1ebb776c6872945a0bcc7f270645e498ae97dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 06/47] fix: sign of xip_im for the reversed pairs of TwoD
 auto-correlations

---
 src/Corr2.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index 5b68530..fa2d1f1 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -494,8 +494,9 @@ struct DirectHelper2<3,ZData,ZData>
         xi.xim_im[k] += z1z2i;
 
         if (R) {
+            // Note: The reverse pair has z2 conj(z1), the conjugate of z1 conj(z2).
             xi.xip[k2] += z1z2cr;
-            xi.xip_im[k2] += z1z2ci;
+            xi.xip_im[k2] -= z1z2ci;
             xi.xim[k2] += z1z2r;
             xi.xim_im[k2] += z1z2i;
         }
@@ -549,8 +550,9 @@ struct DirectHelper2<5,D1,D2>
         xi.xim_im[k] += g1g2i;
 
         if (R) {
+            // Note: The reverse pair has g2 conj(g1), the conjugate of g1 conj(g2).
             xi.xip[k2] += g1g2cr;
-            xi.xip_im[k2] += g1g2ci;
+            xi.xip_im[k2] -= g1g2ci;
             xi.xim[k2] += g1g2r;
             xi.xim_im[k2] += g1g2i;
         }
-- 
2.43.0


From e63414f0171dc72afaf5fdff557a36a1cd869ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 07/47] fix: sample_pairs could return pairs that were never
 set when a late cell pair overflows the sample

---
 src/Corr2.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index fa2d1f1..bf771aa 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -870,9 +870,13 @@ void Sampler::finishProcess(
         std::vector<long> selection(_n);
         SelectRandomFrom(_k+m, selection);
         // If any items in k<=i<n are from the original set, put them in their original place.
+        // Note: The swap may bring in another item from the original set, so keep going until
+        // slot i has one of the new items.
         for(long i=_k;i<_n;++i) {
-            long j = selection[i];
-            if (j < _n) std::swap(selection[i], selection[j]);
+            while (selection[i] < _k) {
+                long j = selection[i];
+                std::swap(selection[i], selection[j]);
+            }
         }
 
         // Now any items with j >= k can replace the value at their i in this list.
-- 
2.43.0


From 5ce6bc88df2e3a51afa6eb0d8ae1d3f96402a3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 08/47] fix: TwoD binning with min_sep must not drop cell pairs
 straddling min_sep into a bin

---
 include/BinType.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/BinType.h b/include/BinType.h
index 9a480e1..4a84cce 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -358,6 +358,10 @@ struct BinTypeHelper<TwoD>
         int mid = int(maxsep/binsize);
         if (i == mid && j == mid) return false;
 
+        // Unlike the other bin types, minsep isn't an edge of any bin here, so some pairs in
+        // these cells might be inside minsep and others outside of it.
+        if (minsep > 0. && rsq < SQR(minsep + s1ps2)) return false;
+
         // Check how much ii,jj can change for x,y +- s1ps2
         // This is simpler than the Log case, because we don't have to try to avoid
         // gratuitous log function calls.
-- 
2.43.0


From 749702e54cc83e2363114f42e2e3c93d76065e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 09/47] fix: account for the total weight of patch pairs that
 are skipped or already have a result

---
 treecorr/corr2base.py      | 34 +++++++++++++++++++++-------------
 treecorr/corr3base.py      | 24 ++++++++++++++++--------
 treecorr/nncorrelation.py  | 10 +++++++++-
 treecorr/nnncorrelation.py | 14 +++++++++++++-
 4 files changed, 59 insertions(+), 23 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index d1844e9..5b723e0 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -721,6 +721,10 @@ class Corr2(object):
         # No op for all but NNCorrelation, which needs to add the tot value
         pass
 
+    def _skip_cross(self, c1, c2):
+        # No op for all but NNCorrelation, which needs to account for the tot value
+        pass
+
     def _trivially_zero(self, c1, c2):
         x1,y1,z1,s1 = c1._get_center_size()
         x2,y2,z2,s2 = c2._get_center_size()
@@ -770,15 +774,17 @@ class Corr2(object):
             if low_mem and p is not cat1:
                 p.unload()
         if len(cat_list) == 0:
-            return None
-        else:
-            cat2e = Catalog.combine(cat_list, mask_list=mask_list, low_mem=low_mem)
-            # This is important for NN correlations to get the tot to work out right.
-            # Basically, we treat the extended patch as though it included all of cat2
-            # for the purposes of figuring out the right tot normalization.
-            cat2e._sumw = sumw
-            if cat1.name != '':
-                cat2e.name = cat1.name + " (expanded)"
+            # Nothing is close enough to matter.  But we still need something to carry the
+            # total weight of cat2 (cf. below), so use a single (arbitrary) object.
+            cat_list.append(cat2[0])
+            mask_list.append(np.array([0]))
+        cat2e = Catalog.combine(cat_list, mask_list=mask_list, low_mem=low_mem)
+        # This is important for NN correlations to get the tot to work out right.
+        # Basically, we treat the extended patch as though it included all of cat2
+        # for the purposes of figuring out the right tot normalization.
+        cat2e._sumw = sumw
+        if cat1.name != '':
+            cat2e.name = cat1.name + " (expanded)"
         return cat2e
 
     def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False):
@@ -789,11 +795,13 @@ class Corr2(object):
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ij)
+            # NNCorrelation still needs the tot value in temp if this will be written.
+            temp._skip_cross(c1, c2)
         if temp.nonzero or force_write:
-            if ij in self.results and self.results[ij].nonzero:
-                self.results[ij] += temp
-            else:
-                self.results[ij] = temp.copy()
+            prev = self.results.get(ij, None)
+            self.results[ij] = temp.copy()
+            if prev is not None:
+                self.results[ij] += prev
             self += temp
         else:
             # NNCorrelation needs to add the tot value
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 2b7af88..9f3d3e3 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1110,6 +1110,10 @@ class Corr3(object):
         # No op for all but NNCorrelation, which needs to add the tot value
         pass
 
+    def _skip_cross(self, c1, c2, c3):
+        # No op for all but NNNCorrelation, which needs to account for the tot value
+        pass
+
     def _trivially_zero(self, c1, c2, c3):
         # For now, ignore the metric.  Just be conservative about how much space we need.
         x1,y1,z1,s1 = c1._get_center_size()
@@ -1133,11 +1137,13 @@ class Corr3(object):
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ijj)
+            # NNNCorrelation still needs the tot value in temp if this will be written.
+            temp._skip_cross(c1, c2, c2)
         if temp.nonzero or force_write:
-            if ijj in self.results and self.results[ijj].nonzero:
-                self.results[ijj] += temp
-            else:
-                self.results[ijj] = temp.copy()
+            prev = self.results.get(ijj, None)
+            self.results[ijj] = temp.copy()
+            if prev is not None:
+                self.results[ijj] += prev
             self += temp
         else:
             # NNNCorrelation needs to add the tot value
@@ -1153,11 +1159,13 @@ class Corr3(object):
         else:
             self.logger.info('Skipping %s, which are too far apart ' +
                              'for this set of separations',ijk)
+            # NNNCorrelation still needs the tot value in temp if this will be written.
+            temp._skip_cross(c1, c2, c3)
         if temp.nonzero or force_write:
-            if ijk in self.results and self.results[ijk].nonzero:
-                self.results[ijk] += temp
-            else:
-                self.results[ijk] = temp.copy()
+            prev = self.results.get(ijk, None)
+            self.results[ijk] = temp.copy()
+            if prev is not None:
+                self.results[ijk] += prev
             self += temp
         else:
             # NNNCorrelation needs to add the tot value
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 3f1e681..2049462 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -257,7 +257,15 @@ class NNCorrelation(Corr2):
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.  But use a minimal copy with just the necessary fields
         # to save some time.
-        self.results[ij] = self._zero_copy(tot)
+        # But if there already is a result for this pair, just add to its tot value.
+        if ij in self.results:
+            self.results[ij].tot += tot
+        else:
+            self.results[ij] = self._zero_copy(tot)
+
+    def _skip_cross(self, c1, c2):
+        # The equivalent of process_cross when the catalogs are too far apart to have any pairs.
+        self.tot += c1.sumw * c2.sumw
 
     def _mean_weight(self):
         mean_np = np.mean(self.npairs)
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index f6e8978..6944ca5 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -360,7 +360,19 @@ class NNNCorrelation(Corr3):
         # We also have to keep all pairs in the results dict, otherwise the tot calculation
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.
-        self.results[ijk] = self._zero_copy(tot)
+        # But if there already is a result for this triple, just add to its tot value.
+        if ijk in self.results:
+            self.results[ijk].tot += tot
+        else:
+            self.results[ijk] = self._zero_copy(tot)
+
+    def _skip_cross(self, c1, c2, c3):
+        # The equivalent of process_cross when the catalogs are too far apart to have any triangles.
+        tot = c1.sumw * c2.sumw * c3.sumw
+        if c2 is c3:
+            # Account for 1/2 factor in cross12 cases.
+            tot /= 2.
+        self.tot += tot
 
     def __iadd__(self, other):
         """Add a second Correlation object's data to this one.
-- 
2.43.0


From 4acc66a125bef293c84cdf360198117def8213a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 10/47] fix: TwoD auto-correlations with patches must count
 pairs between patches in both directions

---
 treecorr/corr2base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 5b723e0..90517f4 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -787,11 +787,16 @@ class Corr2(object):
             cat2e.name = cat1.name + " (expanded)"
         return cat2e
 
-    def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False):
+    def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False,
+                          both=False):
         # Helper function for _process_all_auto and _process_cross for doing cross pairs.
         temp._clear()
         if c2 is not None and not self._trivially_zero(c1, c2):
             temp.process_cross(c1, c2, metric=metric, num_threads=num_threads)
+            if both:
+                # Don't use the derived class version for the reversed pairs, since NNCorrelation
+                # should only count these objects once for the tot value.
+                Corr2.process_cross(temp, c2, c1, metric=metric, num_threads=num_threads)
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ij)
@@ -896,7 +901,9 @@ class Corr2(object):
                         j = c2._single_patch if c2._single_patch is not None else jj
                         if i < j and is_my_job(my_indices, i, j, n):
                             self.logger.info('Process patches %d, %d cross',i,j)
-                            self._single_process12(c1, c2, (i,j), metric, num_threads, temp)
+                            # For TwoD, auto-correlations include each pair in both directions.
+                            self._single_process12(c1, c2, (i,j), metric, num_threads, temp,
+                                                   both=self.bin_type == 'TwoD')
                             if low_mem and jj != ii+1:
                                 # Don't unload i+1, since that's the next one we'll need.
                                 c2.unload()
-- 
2.43.0


From bc5971d5ef85d90b052532480a2c334a8cc0a00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 11/47] fix: patch_method=local with TwoD must include the
 corners

---
 treecorr/corr2base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 90517f4..b8fe65b 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -742,6 +742,11 @@ class Corr2(object):
             if r != 0:  # pragma: no branch
                 x1 /= r; y1 /= r; z1 /= r
 
+        # For TwoD, max_sep is the maximum value in each direction, not of the total separation.
+        max_sep = self._max_sep
+        if self.bin_type == 'TwoD':
+            max_sep *= 2**0.5
+
         cat_list = []
         mask_list = []
         sumw = 0
@@ -752,7 +757,7 @@ class Corr2(object):
                 r = np.sqrt(x2**2 + y2**2 + z2**2)
                 if r != 0:
                     x2 /= r; y2 /= r; z2 /= r
-            if ((x2-x1)**2 + (y2-y1)**2 + (z2-z1)**2)**0.5 > self._max_sep + s1 + s2:
+            if ((x2-x1)**2 + (y2-y1)**2 + (z2-z1)**2)**0.5 > max_sep + s1 + s2:
                 if low_mem and p is not cat1:
                     p.unload()
                 continue
@@ -764,7 +769,7 @@ class Corr2(object):
                 px = px/pr; py = py/pr; pz = pz/pr
             dsq = (px-x1)**2 + (py-y1)**2 + (pz-z1)**2
             d = np.sqrt(dsq)
-            mask = np.where(d < s1+self._max_sep)
+            mask = np.where(d < s1+max_sep)
             if len(mask[0]) == 0:
                 if low_mem and p is not cat1:
                     p.unload()
-- 
2.43.0


From e570e19449c7a253c0e2ea81bbd6a4aeff5190f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 12/47] fix: patch sizes on the sphere must be relative to the
 normalized center

---
 treecorr/catalog.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 8fb02db..7370e23 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1290,10 +1290,14 @@ class Catalog(object):
         if not hasattr(self, '_cen_s'):
             mx = np.mean(self.x)
             my = np.mean(self.y)
-            mz = 0
+            mz = np.mean(self.z) if self.z is not None else 0
+            if self.coords == 'spherical':
+                # The center will be taken to be on the unit sphere, so the size needs to be
+                # relative to that point.
+                r = np.sqrt(mx**2 + my**2 + mz**2)
+                mx, my, mz = (mx/r, my/r, mz/r) if r != 0 else (1,0,0)
             dsq = (self.x - mx)**2 + (self.y - my)**2
             if self.z is not None:
-                mz = np.mean(self.z)
                 dsq += (self.z - mz)**2
             s = np.max(dsq)**0.5
             self._cen_s = (mx, my, mz, s)
-- 
2.43.0


From 606bd98a82b55ab4daaf12f4d938318e49bb3d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 13/47] fix: results of patch_method=local are keyed by (i,i)
 even if cat2 has no patches

---
 treecorr/corr2base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index b8fe65b..18d5f2b 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -977,6 +977,9 @@ class Corr2(object):
             temp.results = {}  # Don't mess up the original results
 
             if local:
+                # In this case, the results are all (i,i), even if cat2 doesn't use patches.
+                if n1 != 1:
+                    self.npatch2 = n1
                 for ii,c1 in enumerate(cat1):
                     i = c1._single_patch if c1._single_patch is not None else ii
                     if is_my_job(my_indices, i, i, n1, n2):
-- 
2.43.0


From 8136ccb8600bb28ab6eac62fe8712a9c40126cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 14/47] fix: local patch method for three-point: tot counts
 each triangle once, results keyed (i,i,i)

---
 treecorr/corr3base.py      | 35 +++++++++++++++++++++++++++--------
 treecorr/nnncorrelation.py |  5 +++++
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 9f3d3e3..bdab74f 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1114,6 +1114,10 @@ class Corr3(object):
         # No op for all but NNNCorrelation, which needs to account for the tot value
         pass
 
+    def _scale_tot(self, factor):
+        # No op for all but NNNCorrelation, which needs to scale the tot value
+        pass
+
     def _trivially_zero(self, c1, c2, c3):
         # For now, ignore the metric.  Just be conservative about how much space we need.
         x1,y1,z1,s1 = c1._get_center_size()
@@ -1127,7 +1131,8 @@ class Corr3(object):
 
     _make_expanded_patch = Corr2._make_expanded_patch
 
-    def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write):
+    def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write,
+                          tot_factor=1):
         # Helper function for _process_all_auto, etc. for doing 12 cross pairs
         temp._clear()
 
@@ -1139,6 +1144,7 @@ class Corr3(object):
                              'for this set of separations',ijj)
             # NNNCorrelation still needs the tot value in temp if this will be written.
             temp._skip_cross(c1, c2, c2)
+        temp._scale_tot(tot_factor)
         if temp.nonzero or force_write:
             prev = self.results.get(ijj, None)
             self.results[ijj] = temp.copy()
@@ -1149,7 +1155,8 @@ class Corr3(object):
             # NNNCorrelation needs to add the tot value
             self._add_tot(ijj, c1, c2, c2)
 
-    def _single_process123(self, c1, c2, c3, ijk, metric, ordered, num_threads, temp, force_write):
+    def _single_process123(self, c1, c2, c3, ijk, metric, ordered, num_threads, temp, force_write,
+                           tot_factor=1):
         # Helper function for _process_all_auto, etc. for doing 123 cross triples
         temp._clear()
 
@@ -1161,6 +1168,7 @@ class Corr3(object):
                              'for this set of separations',ijk)
             # NNNCorrelation still needs the tot value in temp if this will be written.
             temp._skip_cross(c1, c2, c3)
+        temp._scale_tot(tot_factor)
         if temp.nonzero or force_write:
             prev = self.results.get(ijk, None)
             self.results[ijk] = temp.copy()
@@ -1235,8 +1243,9 @@ class Corr3(object):
                     if is_my_job(my_indices, i, i, i, n):
                         c1e = self._make_expanded_patch(c1, cat1, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
+                        # Each triangle is processed three times, once from each vertex.
                         self._single_process12(c1, c1e, (i,i,i), metric, 1,
-                                               num_threads, temp, True)
+                                               num_threads, temp, True, tot_factor=1./3.)
                         if low_mem:
                             c1.unload()
             else:
@@ -1356,13 +1365,18 @@ class Corr3(object):
             ordered1 = 1 if ordered else 0
 
             if local:
+                # In this case, the results are all (i,i,i), even if one doesn't use patches.
+                if n1 != 1 or not ordered:
+                    self.npatch1 = self.npatch2 = self.npatch3 = max(n1,n2)
+                # If not ordered, each triangle is processed three times, once from each vertex.
+                tot_factor = 1. if ordered else 1./3.
                 for ii,c1 in enumerate(cat1):
                     i = c1._single_patch if c1._single_patch is not None else ii
                     if is_my_job(my_indices, i, i, i, n1, n2):
                         c2e = self._make_expanded_patch(c1, cat2, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
                         self._single_process12(c1, c2e, (i,i,i), metric, 1,
-                                               num_threads, temp, True)
+                                               num_threads, temp, True, tot_factor)
                         if low_mem:
                             c1.unload()
                 if not ordered:
@@ -1376,7 +1390,7 @@ class Corr3(object):
                             c2e = self._make_expanded_patch(c2, cat2, metric, low_mem)
                             self.logger.info('Process patch %d from cat2 with surrounding local patches',i)
                             self._single_process123(c2, c1e, c2e, (i,i,i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True, tot_factor)
                             if low_mem:
                                 c2.unload()
             else:
@@ -1474,6 +1488,11 @@ class Corr3(object):
             temp.results = {}
 
             if local:
+                # In this case, the results are all (i,i,i), even if some don't use patches.
+                if n1 != 1 or not ordered:
+                    self.npatch1 = self.npatch2 = self.npatch3 = max(n1,n2,n3)
+                # If not ordered, each triangle is processed three times, once from each vertex.
+                tot_factor = 1. if ordered else 1./3.
                 for ii,c1 in enumerate(cat1):
                     i = c1._single_patch if c1._single_patch is not None else ii
                     if is_my_job(my_indices, i, i, i, n1, n2, n3):
@@ -1482,7 +1501,7 @@ class Corr3(object):
                         self.logger.info('Process patch %d with surrounding local patches',i)
                         self._single_process123(c1, c2e, c3e, (i,i,i), metric,
                                                 1 if not ordered else ordered,
-                                                num_threads, temp, True)
+                                                num_threads, temp, True, tot_factor)
                         if low_mem:
                             c1.unload()
                 if not ordered:
@@ -1496,7 +1515,7 @@ class Corr3(object):
                             c3e = self._make_expanded_patch(c2, cat3, metric, low_mem)
                             self.logger.info('Process patch %d from cat2 with surrounding local patches',i)
                             self._single_process123(c2, c1e, c3e, (i,i,i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True, tot_factor)
                             if low_mem:
                                 c2.unload()
                     for ii,c3 in enumerate(cat3):
@@ -1506,7 +1525,7 @@ class Corr3(object):
                             c2e = self._make_expanded_patch(c3, cat2, metric, low_mem)
                             self.logger.info('Process patch %d from cat3 with surrounding local patches',i)
                             self._single_process123(c3, c1e, c2e, (i,i,i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True, tot_factor)
                             if low_mem:
                                 c3.unload()
             else:
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 6944ca5..4a0df3a 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -374,6 +374,11 @@ class NNNCorrelation(Corr3):
             tot /= 2.
         self.tot += tot
 
+    def _scale_tot(self, factor):
+        # When using local patches, a triangle may be processed more than once, so tot needs to be
+        # scaled to still be the number of triangles.
+        self.tot *= factor
+
     def __iadd__(self, other):
         """Add a second Correlation object's data to this one.
 
-- 
2.43.0


From 9ef839c91a1b963a19cf98631c771a4a9f42092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 15/47] fix: NN/NNN resampled estimators with undivided
 randoms, one-sided patches or empty patches

---
 treecorr/corr2base.py      |  6 ++++++
 treecorr/corr3base.py      |  5 +++++
 treecorr/nncorrelation.py  | 36 +++++++++++++++++++++++++++---------
 treecorr/nnncorrelation.py | 20 ++++++++++++++------
 4 files changed, 52 insertions(+), 15 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 18d5f2b..26f3e37 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1571,6 +1571,11 @@ class Corr2(object):
     def _get_npatch(self):
         return max(self.npatch1, self.npatch2)
 
+    def _clear_stat(self):
+        # No op for all but NNCorrelation and NNNCorrelation, whose statistic is separate from the
+        # accumulated data vectors.
+        pass
+
     def _calculate_xi_from_pairs(self, pairs):
         # Compute the xi data vector for the given list of pairs.
         # pairs is input as a list of (i,j) values.
@@ -2070,6 +2075,7 @@ def _make_cov_design_matrix_core(corrs, plist, func, name, rank=0, size=1):
                                "patch pairs.  This probably means these patch specifications "
                                "are inappropriate for these data.")
                 c._clear()
+                c._clear_stat()
             else:
                 c._calculate_xi_from_pairs(cpairs)
         v[row] = func(corrs)
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index bdab74f..f66562a 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2291,6 +2291,11 @@ class Corr3(object):
     def _get_npatch(self):
         return max(self.npatch1, self.npatch2, self.npatch3)
 
+    def _clear_stat(self):
+        # No op for all but NNCorrelation and NNNCorrelation, whose statistic is separate from the
+        # accumulated data vectors.
+        pass
+
     def _calculate_xi_from_pairs(self, pairs):
         # Compute the xi data vector for the given list of pairs.
         # "pairs" here are really triples, input as a list of (i,j,k) values.
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 2049462..22e1d51 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -421,18 +421,22 @@ class NNCorrelation(Corr2):
             # patches with no items), then we need to add some dummy results to make sure all the
             # right pairs are computed when we make the vectors for the covariance matrix.
             add_ij = set()
-            if rr.npatch1 != 1 and rr.npatch2 != 1:
+            if rr.npatch1 == self.npatch1 and rr.npatch2 == self.npatch2:
                 for ij in rr.results:
                     if ij not in self.results:
                         add_ij.add(ij)
 
-            if dr is not None and dr.npatch2 != 1:
+            if dr is not None:
                 for ij in dr.results:
+                    if dr.npatch2 == 1 and self.npatch2 != 1:
+                        ij = (ij[0],ij[0])
                     if ij not in self.results:
                         add_ij.add(ij)
 
-            if rd is not None and rd.npatch1 != 1:
+            if rd is not None:
                 for ij in rd.results:
+                    if rd.npatch1 == 1 and self.npatch1 != 1:
+                        ij = (ij[1],ij[1])
                     if ij not in self.results:
                         add_ij.add(ij)
 
@@ -446,6 +450,12 @@ class NNCorrelation(Corr2):
         self.varxi = self.cov_diag
         return self.xi, self.varxi
 
+    def _clear_stat(self):
+        # Clear the values of the previous calculation, if there is one.
+        if self._rr is not None:
+            self.xi = np.zeros_like(self.weight)
+            self._rr_weight = np.ones_like(self.weight)  # As in _calculate_xi_from_pairs
+
     def _calculate_xi_from_pairs(self, pairs):
         self._sum([self.results[ij] for ij in pairs])
         self._finalize()
@@ -465,8 +475,14 @@ class NNCorrelation(Corr2):
             # The approximation we'll use is that tot in the auto-correlations is
             # proportional to area**2.
             # So the sum of tot**0.5 when i==j gives an estimate of the fraction of the total area.
-            area_frac = np.sum([self.results[ij].tot**0.5 for ij in pairs if ij[0] == ij[1]])
-            area_frac /= np.sum([cij.tot**0.5 for ij,cij in self.results.items() if ij[0] == ij[1]])
+            # If only one of the catalogs has patches, then tot is proportional to its area.
+            if self.npatch1 == 1 or self.npatch2 == 1:
+                area_frac = np.sum([self.results[ij].tot for ij in pairs])
+                area_frac /= np.sum([cij.tot for cij in self.results.values()])
+            else:
+                area_frac = np.sum([self.results[ij].tot**0.5 for ij in pairs if ij[0] == ij[1]])
+                area_frac /= np.sum([cij.tot**0.5 for ij,cij in self.results.items()
+                                     if ij[0] == ij[1]])
             # First figure out the original total for all DD that had the same footprint as RR.
             dd_tot = np.sum([self.results[ij].tot for ij in self.results])
             # The rrf we want will be a factor of area_frac smaller than the original
@@ -478,18 +494,20 @@ class NNCorrelation(Corr2):
         rrf = dd_tot / self._rr.tot
 
         if self._dr is not None:
-            if self._dr.npatch2 == 1:
+            if self._dr.npatch2 == 1 and self.npatch2 != 1:
                 # If r doesn't have patches, then convert all (i,i) pairs to (i,0).
-                pairs2 = [(ij[0],0) for ij in pairs if ij[0] == ij[1]]
+                pairs2 = [(ij[0],0) for ij in pairs if ij[0] == ij[1]
+                          and self._dr._ok[ij[0],0]]
             else:
                 pairs2 = [ij for ij in pairs if self._dr._ok[ij[0],ij[1]]]
             self._dr._sum([self._dr.results[ij] for ij in pairs2])
             dr = self._dr.weight
             drf = dd_tot / self._dr.tot
         if self._rd is not None:
-            if self._rd.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rd.npatch1 == 1 and self.npatch1 != 1:
                 # If r doesn't have patches, then convert all (i,i) pairs to (0,i).
-                pairs3 = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
+                pairs3 = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]
+                          and self._rd._ok[0,ij[1]]]
             else:
                 pairs3 = [ij for ij in pairs if self._rd._ok[ij[0],ij[1]]]
             self._rd._sum([self._rd.results[ij] for ij in pairs3])
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 4a0df3a..71dba36 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -602,6 +602,12 @@ class NNNCorrelation(Corr3):
         self.varzeta = self.cov_diag.reshape(self.zeta.shape)
         return self.zeta, self.varzeta
 
+    def _clear_stat(self):
+        # Clear the values of the previous calculation, if there is one.
+        if self._rrr is not None:
+            self.zeta = np.zeros_like(self.weight)
+            self._rrr_weight = np.ones_like(self.weight)  # As in _calculate_xi_from_pairs
+
     def _calculate_xi_from_pairs(self, pairs):
         # Note: we keep the notation ij and pairs here, even though they are really ijk and
         # triples.
@@ -637,19 +643,21 @@ class NNNCorrelation(Corr3):
         rrrf = ddd_tot / self._rrr.tot
 
         if self._drr is not None:
-            if self._drr.npatch2 == 1:
+            if self._drr.npatch2 == 1 and self.npatch2 != 1:
                 # If r doesn't have patches, then convert all (i,i,i) pairs to (i,0,0).
-                pairs2 = [(ij[0],0,0) for ij in pairs if ij[0] == ij[1] == ij[2]]
+                pairs2 = [(ij[0],0,0) for ij in pairs if ij[0] == ij[1] == ij[2]
+                          and self._drr._ok[ij[0],0,0]]
             else:
                 pairs2 = [ij for ij in pairs if self._drr._ok[ij[0],ij[1],ij[2]]]
             self._drr._sum([self._drr.results[ij] for ij in pairs2])
             drr = self._drr.weight
             drrf = ddd_tot / self._drr.tot
         if self._rdd is not None:
-            if self._rdd.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
-                # If r doesn't have patches, then convert all (i,i,j) pairs to (0,i,j)
-                # and all (i,j,i to (0,j,i).
-                pairs3 = [(0,ij[1],ij[2]) for ij in pairs if ij[0] == ij[1] or ij[0] == ij[2]]
+            if self._rdd.npatch1 == 1 and self.npatch1 != 1:
+                # If r doesn't have patches, then convert all (i,i,j) pairs to (0,i,j).
+                # Note: Any (i,j,i) would be a duplicate of one of these.
+                pairs3 = [(0,ij[1],ij[2]) for ij in pairs if ij[0] == ij[1]
+                          and self._rdd._ok[0,ij[1],ij[2]]]
             else:
                 pairs3 = [ij for ij in pairs if self._rdd._ok[ij[0],ij[1],ij[2]]]
             self._rdd._sum([self._rdd.results[ij] for ij in pairs3])
-- 
2.43.0


From 9f39dd9090cf9800aabe2f8953ed3ae4c904e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 16/47] fix: NK/NZ calculateXi: stale randoms, undivided
 randoms, xi_im and cov of the compensated statistic

---
 treecorr/corr2base.py      |  7 +++--
 treecorr/corr3base.py      |  6 ++---
 treecorr/nkcorrelation.py  | 51 +++++++++++++++++++++++++++----------
 treecorr/nncorrelation.py  |  3 ++-
 treecorr/nnncorrelation.py |  3 ++-
 treecorr/nzcorrelation.py  | 52 ++++++++++++++++++++++++++++----------
 6 files changed, 85 insertions(+), 37 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 26f3e37..c481211 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1572,9 +1572,9 @@ class Corr2(object):
         return max(self.npatch1, self.npatch2)
 
     def _clear_stat(self):
-        # No op for all but NNCorrelation and NNNCorrelation, whose statistic is separate from the
-        # accumulated data vectors.
-        pass
+        # Clear the data vectors and the statistic for a selection without any pairs.
+        # Needs to be overridden when there are randoms.
+        self._clear()
 
     def _calculate_xi_from_pairs(self, pairs):
         # Compute the xi data vector for the given list of pairs.
@@ -2074,7 +2074,6 @@ def _make_cov_design_matrix_core(corrs, plist, func, name, rank=0, size=1):
                 c.logger.error("WARNING: A xi for calculating the %s covariance has no "%name +
                                "patch pairs.  This probably means these patch specifications "
                                "are inappropriate for these data.")
-                c._clear()
                 c._clear_stat()
             else:
                 c._calculate_xi_from_pairs(cpairs)
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index f66562a..f17e13c 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2292,9 +2292,9 @@ class Corr3(object):
         return max(self.npatch1, self.npatch2, self.npatch3)
 
     def _clear_stat(self):
-        # No op for all but NNCorrelation and NNNCorrelation, whose statistic is separate from the
-        # accumulated data vectors.
-        pass
+        # Clear the data vectors and the statistic for a selection without any triangles.
+        # Needs to be overridden when there are randoms.
+        self._clear()
 
     def _calculate_xi_from_pairs(self, pairs):
         # Compute the xi data vector for the given list of pairs.
diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 37378e1..2bbb3f9 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -154,9 +154,16 @@ class NKCorrelation(Corr2):
     @property
     def raw_varxi(self):
         if self._raw_varxi is None:
-            self._raw_varxi = np.zeros_like(self.rnom, dtype=float)
+            raw_varxi = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._raw_varxi.ravel()[:] = self.cov_diag
+                if self._rk is None:
+                    raw_varxi.ravel()[:] = self.cov_diag
+                else:
+                    # Now cov is for the compensated values.
+                    raw = self.copy()
+                    raw._rk = raw._cov = None
+                    raw_varxi.ravel()[:] = raw.cov_diag
+            self._raw_varxi = raw_varxi
         return self._raw_varxi
 
     @property
@@ -174,6 +181,12 @@ class NKCorrelation(Corr2):
         self._raw_varxi = None
         self._varxi = None
 
+    def _clear_stat(self):
+        # Unlike for _clear, keep the randoms, since they are still needed for other patch pairs.
+        rk = self._rk
+        self._clear()
+        self._rk = rk
+
     def _sum(self, others):
         # Equivalent to the operation of:
         #     self._clear()
@@ -215,12 +228,12 @@ class NKCorrelation(Corr2):
                 - varxi = array of variance estimates of :math:`\xi(r)`
         """
         if rk is not None:
-            self.xi = self.raw_xi - rk.xi
-            self._rk = rk
-
             if rk.npatch1 not in (1,self.npatch1) or rk.npatch2 != self.npatch2:
                 raise RuntimeError("RK must be run with the same patches as DK")
 
+            self.xi = self.raw_xi - rk.xi
+            self._rk = rk
+
             if len(self.results) > 0:
                 # If there are any rk patch pairs that aren't in results (e.g. due to different
                 # edge effects among the various pairs in consideration), then we need to add
@@ -228,18 +241,24 @@ class NKCorrelation(Corr2):
                 # the vectors for the covariance matrix.
                 template = next(iter(self.results.values()))  # Just need something to copy.
                 for ij in rk.results:
+                    if rk.npatch1 == 1 and self.npatch1 != 1:
+                        ij = (ij[1],ij[1])
                     if ij in self.results: continue
                     new_cij = template.copy()
-                    new_cij.xi.ravel()[:] = 0
-                    new_cij.weight.ravel()[:] = 0
+                    new_cij._clear()
                     self.results[ij] = new_cij
+                    self.__dict__.pop('_ok',None)  # If it was already made, it needs to be redone.
 
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
                 self._varxi.ravel()[:] = self.cov_diag
             else:
                 self._varxi = self.raw_varxi + rk.varxi
+                self._cov = self._varxi.ravel()
         else:
+            if self._rk is not None:
+                self._rk = None
+                self._cov = None
             self.xi = self.raw_xi
             self._varxi = self.raw_varxi
 
@@ -249,13 +268,17 @@ class NKCorrelation(Corr2):
         self._sum([self.results[ij] for ij in pairs])
         self._finalize()
         if self._rk is not None:
-            # If rk has npatch1 = 1, adjust pairs appropriately
-            if self._rk.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
-                pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
-            # Make sure all ij are in the rk results (some might be missing, which is ok)
-            pairs = [ij for ij in pairs if self._rk._ok[ij[0],ij[1]]]
-            self._rk._calculate_xi_from_pairs(pairs)
-            self.xi -= self._rk.xi
+            if len(self._rk.results) > 0:
+                # If rk has npatch1 = 1, adjust pairs appropriately
+                if self._rk.npatch1 == 1 and self.npatch1 != 1:
+                    pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
+                # Make sure all ij are in the rk results (some might be missing, which is ok)
+                pairs = [ij for ij in pairs if self._rk._ok[ij[0],ij[1]]]
+                if len(pairs) == 0:
+                    return
+                self._rk._calculate_xi_from_pairs(pairs)
+            # else rk was run without patches at all.  Then always use the full rk.
+            self.xi = self.raw_xi - self._rk.xi
 
     def write(self, file_name, * ,rk=None, file_type=None, precision=None,
               write_patch_results=False, write_cov=False):
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 22e1d51..f6c8d0d 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -451,7 +451,8 @@ class NNCorrelation(Corr2):
         return self.xi, self.varxi
 
     def _clear_stat(self):
-        # Clear the values of the previous calculation, if there is one.
+        # Also clear the values of the previous calculation, if there is one.
+        self._clear()
         if self._rr is not None:
             self.xi = np.zeros_like(self.weight)
             self._rr_weight = np.ones_like(self.weight)  # As in _calculate_xi_from_pairs
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 71dba36..bc9e6f4 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -603,7 +603,8 @@ class NNNCorrelation(Corr3):
         return self.zeta, self.varzeta
 
     def _clear_stat(self):
-        # Clear the values of the previous calculation, if there is one.
+        # Also clear the values of the previous calculation, if there is one.
+        self._clear()
         if self._rrr is not None:
             self.zeta = np.zeros_like(self.weight)
             self._rrr_weight = np.ones_like(self.weight)  # As in _calculate_xi_from_pairs
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 0ee43ae..9d90df5 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -75,9 +75,16 @@ class BaseNZCorrelation(Corr2):
     @property
     def raw_varxi(self):
         if self._raw_varxi is None:
-            self._raw_varxi = np.zeros_like(self.rnom, dtype=float)
+            raw_varxi = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._raw_varxi.ravel()[:] = self.cov_diag
+                if self._rz is None:
+                    raw_varxi.ravel()[:] = self.cov_diag
+                else:
+                    # Now cov is for the compensated values.
+                    raw = self.copy()
+                    raw._rz = raw._cov = None
+                    raw_varxi.ravel()[:] = raw.cov_diag
+            self._raw_varxi = raw_varxi
         return self._raw_varxi
 
     @property
@@ -96,6 +103,12 @@ class BaseNZCorrelation(Corr2):
         self._raw_varxi = None
         self._varxi = None
 
+    def _clear_stat(self):
+        # Unlike for _clear, keep the randoms, since they are still needed for other patch pairs.
+        rz = self._rz
+        self._clear()
+        self._rz = rz
+
     def _sum(self, others):
         # Equivalent to the operation of:
         #     self._clear()
@@ -116,13 +129,13 @@ class BaseNZCorrelation(Corr2):
 
     def calculateXi(self, rz=None):
         if rz is not None:
+            if rz.npatch1 not in (1,self.npatch1) or rz.npatch2 != self.npatch2:
+                raise RuntimeError(f"R{self._letter2} must be run with the same patches as D{self._letter2}")
+
             self.xi = self.raw_xi - rz.xi
             self.xi_im = self.raw_xi_im - rz.xi_im
             self._rz = rz
 
-            if rz.npatch1 not in (1,self.npatch1) or rz.npatch2 != self.npatch2:
-                raise RuntimeError(f"R{self._letter2} must be run with the same patches as D{self._letter2}")
-
             if len(self.results) > 0:
                 # If there are any rz patch pairs that aren't in results (e.g. due to different
                 # edge effects among the various pairs in consideration), then we need to add
@@ -130,18 +143,24 @@ class BaseNZCorrelation(Corr2):
                 # the vectors for the covariance matrix.
                 template = next(iter(self.results.values()))  # Just need something to copy.
                 for ij in rz.results:
+                    if rz.npatch1 == 1 and self.npatch1 != 1:
+                        ij = (ij[1],ij[1])
                     if ij in self.results: continue
                     new_cij = template.copy()
-                    new_cij.xi.ravel()[:] = 0
-                    new_cij.weight.ravel()[:] = 0
+                    new_cij._clear()
                     self.results[ij] = new_cij
+                    self.__dict__.pop('_ok',None)  # If it was already made, it needs to be redone.
 
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
                 self._varxi.ravel()[:] = self.cov_diag
             else:
                 self._varxi = self.raw_varxi + rz.varxi
+                self._cov = self._varxi.ravel()
         else:
+            if self._rz is not None:
+                self._rz = None
+                self._cov = None
             self.xi = self.raw_xi
             self.xi_im = self.raw_xi_im
             self._varxi = self.raw_varxi
@@ -152,13 +171,18 @@ class BaseNZCorrelation(Corr2):
         self._sum([self.results[ij] for ij in pairs])
         self._finalize()
         if self._rz is not None:
-            # If rz has npatch1 = 1, adjust pairs appropriately
-            if self._rz.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
-                pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
-            # Make sure all ij are in the rz results (some might be missing, which is ok)
-            pairs = [ij for ij in pairs if self._rz._ok[ij[0],ij[1]]]
-            self._rz._calculate_xi_from_pairs(pairs)
-            self.xi -= self._rz.xi
+            if len(self._rz.results) > 0:
+                # If rz has npatch1 = 1, adjust pairs appropriately
+                if self._rz.npatch1 == 1 and self.npatch1 != 1:
+                    pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
+                # Make sure all ij are in the rz results (some might be missing, which is ok)
+                pairs = [ij for ij in pairs if self._rz._ok[ij[0],ij[1]]]
+                if len(pairs) == 0:
+                    return
+                self._rz._calculate_xi_from_pairs(pairs)
+            # else rz was run without patches at all.  Then always use the full rz.
+            self.xi = self.raw_xi - self._rz.xi
+            self.xi_im = self.raw_xi_im - self._rz.xi_im
 
     def write(self, file_name, rz=None, file_type=None, precision=None,
               write_patch_results=False, write_cov=False):
-- 
2.43.0


From 6bb8368677d3bbd50546705370b46f1eaf4a3ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 17/47] fix: a refused variance estimate no longer leaves zeros
 as the cached variance

---
 treecorr/gggcorrelation.py | 20 ++++++++++++--------
 treecorr/kkcorrelation.py  |  5 +++--
 treecorr/kkkcorrelation.py |  5 +++--
 treecorr/kzcorrelation.py  |  5 +++--
 treecorr/zzcorrelation.py  | 10 ++++++----
 5 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/treecorr/gggcorrelation.py b/treecorr/gggcorrelation.py
index 06c7f6f..bf384e9 100644
--- a/treecorr/gggcorrelation.py
+++ b/treecorr/gggcorrelation.py
@@ -336,33 +336,37 @@ class GGGCorrelation(Corr3):
     @property
     def vargam0(self):
         if self._vargam0 is None:
-            self._vargam0 = np.zeros(self.data_shape)
+            vargam0 = np.zeros(self.data_shape)
             if self._var_num != 0:
-                self._vargam0.ravel()[:] = self.cov_diag[0:self._nbins].real
+                vargam0.ravel()[:] = self.cov_diag[0:self._nbins].real
+            self._vargam0 = vargam0
         return self._vargam0
 
     @property
     def vargam1(self):
         if self._vargam1 is None:
-            self._vargam1 = np.zeros(self.data_shape)
+            vargam1 = np.zeros(self.data_shape)
             if self._var_num != 0:
-                self._vargam1.ravel()[:] = self.cov_diag[self._nbins:2*self._nbins].real
+                vargam1.ravel()[:] = self.cov_diag[self._nbins:2*self._nbins].real
+            self._vargam1 = vargam1
         return self._vargam1
 
     @property
     def vargam2(self):
         if self._vargam2 is None:
-            self._vargam2 = np.zeros(self.data_shape)
+            vargam2 = np.zeros(self.data_shape)
             if self._var_num != 0:
-                self._vargam2.ravel()[:] = self.cov_diag[2*self._nbins:3*self._nbins].real
+                vargam2.ravel()[:] = self.cov_diag[2*self._nbins:3*self._nbins].real
+            self._vargam2 = vargam2
         return self._vargam2
 
     @property
     def vargam3(self):
         if self._vargam3 is None:
-            self._vargam3 = np.zeros(self.data_shape)
+            vargam3 = np.zeros(self.data_shape)
             if self._var_num != 0:
-                self._vargam3.ravel()[:] = self.cov_diag[3*self._nbins:4*self._nbins].real
+                vargam3.ravel()[:] = self.cov_diag[3*self._nbins:4*self._nbins].real
+            self._vargam3 = vargam3
         return self._vargam3
 
     def _clear(self):
diff --git a/treecorr/kkcorrelation.py b/treecorr/kkcorrelation.py
index 3af547b..0481846 100644
--- a/treecorr/kkcorrelation.py
+++ b/treecorr/kkcorrelation.py
@@ -158,9 +158,10 @@ class KKCorrelation(Corr2):
     @property
     def varxi(self):
         if self._varxi is None:
-            self._varxi = np.zeros_like(self.rnom, dtype=float)
+            varxi = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._varxi.ravel()[:] = self.cov_diag
+                varxi.ravel()[:] = self.cov_diag
+            self._varxi = varxi
         return self._varxi
 
     def _clear(self):
diff --git a/treecorr/kkkcorrelation.py b/treecorr/kkkcorrelation.py
index ad580e1..ea218ea 100644
--- a/treecorr/kkkcorrelation.py
+++ b/treecorr/kkkcorrelation.py
@@ -264,9 +264,10 @@ class KKKCorrelation(Corr3):
     @property
     def varzeta(self):
         if self._varzeta is None:
-            self._varzeta = np.zeros(self.data_shape)
+            varzeta = np.zeros(self.data_shape)
             if self._var_num != 0:
-                self._varzeta.ravel()[:] = self.cov_diag
+                varzeta.ravel()[:] = self.cov_diag
+            self._varzeta = varzeta
         return self._varzeta
 
     def _clear(self):
diff --git a/treecorr/kzcorrelation.py b/treecorr/kzcorrelation.py
index 7fe2cc1..0437ff9 100644
--- a/treecorr/kzcorrelation.py
+++ b/treecorr/kzcorrelation.py
@@ -58,9 +58,10 @@ class BaseKZCorrelation(Corr2):
     @property
     def varxi(self):
         if self._varxi is None:
-            self._varxi = np.zeros_like(self.rnom, dtype=float)
+            varxi = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._varxi.ravel()[:] = self.cov_diag
+                varxi.ravel()[:] = self.cov_diag
+            self._varxi = varxi
         return self._varxi
 
     def _clear(self):
diff --git a/treecorr/zzcorrelation.py b/treecorr/zzcorrelation.py
index b0d16ea..1aa3369 100644
--- a/treecorr/zzcorrelation.py
+++ b/treecorr/zzcorrelation.py
@@ -112,17 +112,19 @@ class BaseZZCorrelation(Corr2):
     @property
     def varxip(self):
         if self._varxip is None:
-            self._varxip = np.zeros_like(self.rnom, dtype=float)
+            varxip = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._varxip.ravel()[:] = self.cov_diag[:self._nbins]
+                varxip.ravel()[:] = self.cov_diag[:self._nbins]
+            self._varxip = varxip
         return self._varxip
 
     @property
     def varxim(self):
         if self._varxim is None:
-            self._varxim = np.zeros_like(self.rnom, dtype=float)
+            varxim = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._varxim.ravel()[:] = self.cov_diag[self._nbins:]
+                varxim.ravel()[:] = self.cov_diag[self._nbins:]
+            self._varxim = varxim
         return self._varxim
 
     def _clear(self):
-- 
2.43.0


From 11d338fe09e843edbc6d37fc8a0604fef962da28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 18/47] fix: LogSAS pruned clockwise triangles that other
 objects of the cells make counter-clockwise (3d, sphere)

---
 include/BinType.h | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/include/BinType.h b/include/BinType.h
index 4a84cce..9922066 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -805,6 +805,45 @@ struct BinTypeHelper<LogRUV>
     { return (1.-binsize)*r; }
 };
 
+// Helper for LogSAS to check whether some triangle with points in the given cells may have a
+// different orientation than the one made by the cell centers.
+template <int M, int C>
+struct OrientationHelper
+{
+    // For both ThreeD and Sphere, the orientation is the sign of the triple product p1.(p2 x p3).
+    static bool canFlip(const BaseCell<C>& c1, const BaseCell<C>& c2, const BaseCell<C>& c3)
+    {
+        const double s1 = c1.getSize();
+        const double s2 = c2.getSize();
+        const double s3 = c3.getSize();
+        if (s1 == 0. && s2 == 0. && s3 == 0.) return false;
+        // With periodic wrapping, the relevant image of each point can also change.
+        if (M == Periodic) return true;
+        const Position<ThreeD> p1 = c1.getPos();
+        const Position<ThreeD> p2 = c2.getPos();
+        const Position<ThreeD> p3 = c3.getPos();
+        // Write this in terms of r21, r31 to be numerically stable if the points are far away.
+        const Position<ThreeD> r21 = p2-p1;
+        const Position<ThreeD> r31 = p3-p1;
+        const Position<ThreeD> cr = r21.cross(r31);
+        const double s12 = s1 + s2;
+        const double s13 = s1 + s3;
+        // The most that the triple product can change when all the points move.
+        double delta = s12 * r31.cross(p1).norm() + s13 * r21.cross(p1).norm() + s1 * cr.norm()
+            + s12 * s13 * p1.norm() + s1 * s12 * r31.norm() + s1 * s13 * r21.norm()
+            + s1 * s12 * s13;
+        return std::abs(cr.dot(p1)) <= delta;
+    }
+};
+
+template <int M>
+struct OrientationHelper<M,Flat>
+{
+    // The checks on phi are already sufficient here.
+    static bool canFlip(const BaseCell<Flat>& , const BaseCell<Flat>& , const BaseCell<Flat>& )
+    { return false; }
+};
+
 template <>
 struct BinTypeHelper<LogSAS>
 {
@@ -960,6 +999,12 @@ struct BinTypeHelper<LogSAS>
                     return false;
                 }
             }
+            // Except for Flat, the orientation also flips if the plane of the triangle passes
+            // through the observer, which can happen for any value of phi.
+            if (OrientationHelper<M,C>::canFlip(c1, c2, c3)) {
+                xdbg<<"CW but the plane of the triangle could flip to the other side.\n";
+                return false;
+            }
             xdbg<<"triangle is wrong orientation\n";
             return true;
         }
-- 
2.43.0


From 86da5396262eaed17b63822fdac8887b0dc25709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 19/47] fix: LogSAS with phi limits dropped triangles in range
 (bounds on the side opposite phi and on phi +- dphi)

---
 include/BinType.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/BinType.h b/include/BinType.h
index 9922066..4436647 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -856,8 +856,9 @@ struct BinTypeHelper<LogSAS>
     {
         // When still doing process12, if the s2 cell is smaller than the minimum
         // possible triangle side length, then we can stop early.
-        // 2s < sin(min_phi) * minsep < min_phi * minsep
-        return (s2 == 0. || s2 < halfminsep * minphi);
+        // If c1 is the vertex where phi is, then d1 >= 2 sin(minphi/2) minsep >= 2 minphi/pi minsep.
+        // Otherwise, d2 or d3 has to fit in c2, so this needs 2s2 >= minsep.
+        return (s2 == 0. || s2 < halfminsep * std::min(1., 2.*minphi/M_PI));
     }
 
     // Check if all posisble pairs for a two cells (given s1 + s2) necessarily have too small
@@ -1023,6 +1024,7 @@ struct BinTypeHelper<LogSAS>
             }
             // Start with the current value of cosphi, and adjust by dphi2, dphi3
             double cosphimax = cosphi;
+            double sinphimax = 0.;
             if (s1+s2 > 0) {
                 double sindphi2 = (s1+s2)/d3;
                 double cosdphi2sq = 1-SQR(sindphi2);
@@ -1039,9 +1041,11 @@ struct BinTypeHelper<LogSAS>
                     double sindphi = sindphi2 * cosdphi3 + sindphi3 * cosdphi2;
                     double sinphi = sqrt(1-cosphi*cosphi);
                     cosphimax = cosphi * cosdphi - sinphi * sindphi;
+                    sinphimax = sinphi * cosdphi + cosphi * sindphi;
                 } else {
                     double sinphi = sqrt(1-cosphi*cosphi);
                     cosphimax = cosphi * cosdphi2 - sinphi * sindphi2;
+                    sinphimax = sinphi * cosdphi2 + cosphi * sindphi2;
                 }
             } else if (s1+s3 > 0) {
                 double sindphi3 = (s1+s3)/d2;
@@ -1050,12 +1054,14 @@ struct BinTypeHelper<LogSAS>
                 double cosdphi3 = sqrt(cosdphi3sq);
                 double sinphi = sqrt(1-cosphi*cosphi);
                 cosphimax = cosphi * cosdphi3 - sinphi * sindphi3;
+                sinphimax = sinphi * cosdphi3 + cosphi * sindphi3;
             }
 
             // phimax is the largest possible phi we can possibly get.
             // If it's still less than minphi then stop.
             // i.e. cos(phimax) > cos(minphi) = maxcosphi
-            if (cosphimax > maxcosphi) {
+            // (But if phi + dphi is more than pi, then phimax = pi, so we can't stop.)
+            if (cosphimax > maxcosphi && sinphimax >= 0.) {
                 xdbg<<"phi cannot be as large as minphi\n";
                 return true;
             }
@@ -1071,6 +1077,7 @@ struct BinTypeHelper<LogSAS>
         if (maxphi < M_PI && cosphi < mincosphi) {
             // Start with the current value of cosphi, and adjust by dphi2, dphi3
             double cosphimin = cosphi;
+            double sinphimin = 0.;
             if (s1+s2 > 0) {
                 double sindphi2 = (s1+s2)/d3;
                 double cosdphi2sq = 1-SQR(sindphi2);
@@ -1090,23 +1097,27 @@ struct BinTypeHelper<LogSAS>
                     double sindphi = sindphi2 * cosdphi3 + sindphi3 * cosdphi2;
                     double sinphi = sqrt(1-cosphi*cosphi);
                     cosphimin = cosphi * cosdphi + sinphi * sindphi;
+                    sinphimin = sinphi * cosdphi - cosphi * sindphi;
                 } else {
                     double sinphi = sqrt(1-cosphi*cosphi);
                     cosphimin = cosphi * cosdphi2 + sinphi * sindphi2;
+                    sinphimin = sinphi * cosdphi2 - cosphi * sindphi2;
                 }
             } else if (s1+s3 > 0) {
                 double sindphi3 = (s1+s3)/d2;
                 double cosdphi3sq = 1-SQR(sindphi3);
-                if (cosdphi3sq < maxcosphisq) return false;
+                if (cosdphi3sq < -mincosphisq) return false;
                 double cosdphi3 = sqrt(cosdphi3sq);
                 double sinphi = sqrt(1-cosphi*cosphi);
                 cosphimin = cosphi * cosdphi3 + sinphi * sindphi3;
+                sinphimin = sinphi * cosdphi3 - cosphi * sindphi3;
             }
 
             // phimin is the smallest possible phi we can possibly get.
             // If it's still more than maxphi, then stop.
             // i.e. cos(phimin) < cos(maxphi) = mincosphi
-            if (cosphimin < mincosphi) {
+            // (But if dphi is more than phi, then phimin = 0, so we can't stop.)
+            if (cosphimin < mincosphi && sinphimin >= 0.) {
                 xdbg<<"phi cannot be as small as maxphi\n";
                 return true;
             }
-- 
2.43.0


From 323b9994389ccc6e0d3385a805b087184a93ef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 20/47] fix: Arc metric dropped pairs and triangles at large
 separations (cell sizes are chords, not angles) and folded 3d angles beyond
 90 degrees

---
 include/BinType.h |  9 +++++---
 include/Metric.h  | 55 ++++++++++++++++++++++++++++++++++++-----------
 src/Corr2.cpp     |  2 +-
 src/Corr3.cpp     | 28 +++++++++++++-----------
 4 files changed, 65 insertions(+), 29 deletions(-)

diff --git a/include/BinType.h b/include/BinType.h
index 4436647..6d79d65 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -539,7 +539,9 @@ struct BinTypeHelper<LogRUV>
         // d1 > maxv d3 + d2+s1+s2+s3 + maxv*(s1+s2)
         // As before, use the fact that d3 < d2, so check
         // d1 > maxv d2 + d2+s1+s2+s3 + maxv*(s1+s2)
-        double sums = s1+s2+s3;
+        // (Note: d1-d2 changes by at most s3 when the third point moves, since the angle there is at
+        // most 60 degrees, being opposite to the smallest side.  On the sphere, it can be larger.)
+        double sums = M == Arc ? s1+s2+2*s3 : s1+s2+s3;
         if (maxv < 1. && d1sq > SQR((1.+maxv)*d2 + sums + maxv * (s1+s2))) {
             // We don't need any extra checks here related to the possibility of the sides
             // switching roles, since if this condition is true, than d1 has to be the largest
@@ -1015,8 +1017,9 @@ struct BinTypeHelper<LogSAS>
         // The most phi can increase from the current phi is dphi2 + dphi3, where
         // sin(dphi2) = (s1+s2)/d3
         // sin(dphi3) = (s1+s3)/d2
+        // Note: None of this is valid for spherical triangles, so don't do these checks for Arc.
         double s23sq = SQR(s2+s3);
-        if (minphi > 0 && cosphi > maxcosphi) {
+        if (M != Arc && minphi > 0 && cosphi > maxcosphi) {
             // First a quick check for when s1+s3 is rather large.
             if (s23sq >= d1sq && (d2sq + d3sq - s23sq) > (2*d2*d3) * maxcosphi) {
                 xdbg<<"s2+s3 > d1 on their own imply small enough phi, continue splitting.\n";
@@ -1074,7 +1077,7 @@ struct BinTypeHelper<LogSAS>
 
         // If the user sets maxphi < pi, then we can abort if no possible triangle can have
         // phi as small as this.
-        if (maxphi < M_PI && cosphi < mincosphi) {
+        if (M != Arc && maxphi < M_PI && cosphi < mincosphi) {
             // Start with the current value of cosphi, and adjust by dphi2, dphi3
             double cosphimin = cosphi;
             double sinphimin = 0.;
diff --git a/include/Metric.h b/include/Metric.h
index 95bdea6..77acc4d 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -602,7 +602,18 @@ struct MetricHelper<Arc, P>
 
     double DistSq(const Position<Sphere>& p1, const Position<Sphere>& p2,
                   double& s1, double& s2) const
-    { return SQR(Dist(p1,p2)); }
+    {
+        // The sizes are chord lengths.  Convert them to angles as well.
+        if (s1 > 0.) s1 = chordToAngle(s1);
+        if (s2 > 0.) s2 = chordToAngle(s2);
+        return SQR(Dist(p1,p2));
+    }
+
+    static double chordToAngle(double L)
+    {
+        // L = 2 sin(theta/2)
+        return 2. * std::asin(std::min(L/2., 1.));
+    }
 
     double Dist(const Position<Sphere>& p1, const Position<Sphere>& p2) const
     {
@@ -611,9 +622,7 @@ struct MetricHelper<Arc, P>
         // L is the normal Euclidean distance.
         // theta is the Arc distance.
         Position<ThreeD> r = p1-p2;
-        double L = r.norm();
-        double theta = 2. * std::asin(L/2.);
-        return theta;
+        return chordToAngle(r.norm());
     }
 
     // These are the same as Euclidean.
@@ -638,18 +647,21 @@ struct MetricHelper<Arc, P>
                   double& s1, double& s2) const
     {
         double dsq = SQR(Dist(p1,p2));
-        // Also the sizes need to be converted to the effective size on the unit sphere
-        s1 /= p1.norm();
-        s2 /= p2.norm();
+        // Also the sizes need to be converted to the largest angle they can subtend
+        // as seen from the origin.
+        if (s1 > 0.) s1 = sizeToAngle(s1, p1.norm());
+        if (s2 > 0.) s2 = sizeToAngle(s2, p2.norm());
         return dsq;
     }
 
+    static double sizeToAngle(double s, double r)
+    { return s < r ? std::asin(s/r) : M_PI; }
+
     double Dist(const Position<ThreeD>& p1, const Position<ThreeD>& p2) const
     {
         // sin(theta) = |p1 x p2| / |p1| |p2|
-        double sintheta = p1.cross(p2).norm() / (p1.norm() * p2.norm());
-        double theta = std::asin(sintheta);
-        return theta;
+        // cos(theta) = p1 . p2 / |p1| |p2|
+        return std::atan2(p1.cross(p2).norm(), p1.dot(p2));
     }
 
     // This is the same as Euclidean
@@ -712,9 +724,13 @@ struct MetricHelper<Arc, P>
         // Rather than do trig though, recompute the chord lengths so we can compute
         // cos(phi) with just regular arithmetic and a sqrt.
         //
-        double d1sq = (c2.getPos() - c3.getPos()).normSq();
-        double d2sq = (c1.getPos() - c3.getPos()).normSq();
-        double d3sq = (c1.getPos() - c2.getPos()).normSq();
+        // (For 3d positions, these are the chords of the corresponding points on the unit sphere.)
+        const Position<Sphere> p1(c1.getPos());
+        const Position<Sphere> p2(c2.getPos());
+        const Position<Sphere> p3(c3.getPos());
+        double d1sq = (p2 - p3).normSq();
+        double d2sq = (p1 - p3).normSq();
+        double d3sq = (p1 - p2).normSq();
 
         double cosphi = (d2sq + d3sq - 0.5*d2sq*d3sq - d1sq);
         cosphi /= 2. * std::sqrt( d2sq * d3sq * (1.-0.25*d2sq) * (1.-0.25*d3sq) );
@@ -857,6 +873,19 @@ struct MetricHelper<Periodic, P>
 
 };
 
+// The size of a cell in the same units as the separations.
+// This is normally just the size, but for Arc, it is the largest angle that it can subtend.
+template <int M, int P, int C>
+inline double EffectiveSize(const MetricHelper<M,P>& metric, const BaseCell<C>& c)
+{
+    double s = c.getSize();
+    if (M == Arc) {
+        double s0 = 0.;
+        metric.DistSq(c.getPos(), c.getPos(), s, s0);
+    }
+    return s;
+}
+
 // A quick helper struct so we only instantiate valid combinations of M, C
 template <int M, int C>
 struct ValidMC;
diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index bf771aa..e12ce1d 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -280,7 +280,7 @@ template <int B, int M, int P, int C>
 void BaseCorr2::process2(const BaseCell<C>& c12, const MetricHelper<M,P>& metric)
 {
     // Note: Pairs with separation exactly equal to minsep are in range.
-    if (c12.getSize() == 0. || c12.getSize() < _halfminsep) return;
+    if (c12.getSize() == 0. || EffectiveSize(metric, c12) < _halfminsep) return;
 
     Assert(c12.getLeft());
     Assert(c12.getRight());
diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index acb48c0..a1980c9 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -431,7 +431,7 @@ void BaseCorr3::process3(const BaseCell<C>& c1, const MetricHelper<M,0>& metric)
     xdbg<<ws()<<"Process3: c1 = "<<c1.getPos()<<"  "<<c1.getSize()<<"  "<<c1.getN()<<std::endl;
     xdbg<<ws()<<"Process3: c1 = "<<indices(c1)<<"\n";
 
-    if (c1.getSize() < _halfminsep) {
+    if (EffectiveSize(metric, c1) < _halfminsep) {
         xdbg<<ws()<<"    size < halfminsep.  return\n";
         return;
     }
@@ -462,7 +462,10 @@ void BaseCorr3::process12(const BaseCell<C>& c1, const BaseCell<C>& c2,
 
     // Some trivial stoppers:
     double s2 = c2.getSize();
-    if (BinTypeHelper<B>::tooSmallS2(s2, _halfminsep, _minu, _minv))
+    // (For spherical triangles, the limits on phi don't constrain the size of the opposite side.)
+    const bool sphericalphi = (M == Arc && B == LogSAS);
+    if (BinTypeHelper<B>::tooSmallS2(EffectiveSize(metric, c2), _halfminsep,
+                                     sphericalphi ? 0. : _minu, _minv))
     {
         xdbg<<ws()<<"    s2 smaller than minimum triangle side.  return\n";
         return;
@@ -487,7 +490,8 @@ void BaseCorr3::process12(const BaseCell<C>& c1, const BaseCell<C>& c2,
     }
 
     // Depending on the binning, we may be able to stop due to allowed angles.
-    if (BinTypeHelper<B>::template noAllowedAngles<O>(rsq, s1ps2, s1, s2, _halfminsep,
+    if (!sphericalphi &&
+        BinTypeHelper<B>::template noAllowedAngles<O>(rsq, s1ps2, s1, s2, _halfminsep,
                                                       _minu, _minusq, _maxu, _maxusq,
                                                       _minv, _minvsq, _maxv, _maxvsq)) {
         xdbg<<ws()<<"    No possible triangles with allowed angles\n";
@@ -643,9 +647,9 @@ void BaseCorr3::process111Sorted(
     const BaseCell<C>& c1, const BaseCell<C>& c2, const BaseCell<C>& c3,
     const MetricHelper<M,0>& metric, double d1sq, double d2sq, double d3sq)
 {
-    const double s1 = c1.getSize();
-    const double s2 = c2.getSize();
-    const double s3 = c3.getSize();
+    const double s1 = EffectiveSize(metric, c1);
+    const double s2 = EffectiveSize(metric, c2);
+    const double s3 = EffectiveSize(metric, c3);
 
     xdbg<<"Process111Sorted: c1 = "<<c1.getPos()<<"  "<<c1.getSize()<<"  "<<c1.getN()<<std::endl;
     xdbg<<"                  c2 = "<<c2.getPos()<<"  "<<c2.getSize()<<"  "<<c2.getN()<<std::endl;
@@ -978,10 +982,10 @@ void BaseCorr3::splitC2Cells(
     // Given the current c1, make a new c2 list where we throw away any from c2 list
     // that can't contribute to the bins, and split any that need to be split.
     const Position<C>& p1 = c1.getPos();
-    double s1 = c1.getSize();
     for (const BaseCell<C>* c2: c2list) {
         const Position<C>& p2 = c2->getPos();
-        double s2 = c2->getSize();
+        double s1 = c1.getSize(); // May be modified by DistSq function.
+        double s2 = c2->getSize(); // "
         const double rsq = metric.DistSq(p1,p2,s1,s2);
         const double s1ps2 = s1+s2;
         xdbg<<"rsq = "<<rsq<<"  s = "<<s2<<"  "<<s1ps2<<std::endl;
@@ -1028,7 +1032,7 @@ void BaseCorr3::multipoleSplit1(
 {
     xdbg<<ws()<<"MultipoleSplit1: c1 = "<<c1.getPos()<<"  "<<c1.getSize()<<"  "<<c1.getW()<<"  len c2 = "<<c2list.size()<<std::endl;
 
-    double s1 = c1.getSize();
+    double s1 = EffectiveSize(metric, c1);
 
     // Split cells in c2list if they will definitely need to be split.
     // And remove any that cannot contribute to the sums for this c1.
@@ -1062,7 +1066,7 @@ void BaseCorr3::multipoleSplit1(
 {
     xdbg<<ws()<<"MultipoleSplit1: c1 = "<<c1.getPos()<<"  "<<c1.getSize()<<"  "<<c1.getW()<<"  len c2 = "<<c2list.size()<<" len c3 = "<<c3list.size()<<std::endl;
 
-    double s1 = c1.getSize();
+    double s1 = EffectiveSize(metric, c1);
 
     // Split cells in both lists if appropriate
     std::vector<const BaseCell<C>*> newc2list;
@@ -1097,7 +1101,6 @@ double BaseCorr3::splitC2CellsOrCalculateGn(
     // neither c1 nor c2 need to be split further.  In those cases, accumulate Gn and other
     // scratch arrays and don't add that c2 to newc2list.
     const Position<C>& p1 = c1.getPos();
-    double s1 = c1.getSize();
     double max_remaining_r = 0.;
     // The calculation of thresh1 here is pretty arbitrary.
     // The point of thresh1 is to only split cell1 when it is needed for the pairs with the
@@ -1116,7 +1119,8 @@ double BaseCorr3::splitC2CellsOrCalculateGn(
     double thresh1 = BinTypeHelper<B>::oneBinLessThan(prev_max_remaining_r, _binsize);
     for (const BaseCell<C>* c2: c2list) {
         const Position<C>& p2 = c2->getPos();
-        double s2 = c2->getSize();
+        double s1 = c1.getSize(); // May be modified by DistSq function.
+        double s2 = c2->getSize(); // "
         const double rsq = metric.DistSq(p1,p2,s1,s2);
         const double s1ps2 = s1+s2;
         xdbg<<"rsq = "<<rsq<<"  s = "<<s2<<"  "<<s1ps2<<std::endl;
-- 
2.43.0


From 7130a4ddcbbddf7287404984a70e05c43c620f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 21/47] fix: process() raised a math domain error when the
 total weight of a catalog with negative weights is negative

---
 treecorr/corr2base.py | 10 +++++-----
 treecorr/corr3base.py | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index c481211..655c05e 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1161,22 +1161,22 @@ class Corr2(object):
                 var1 = var2 = self._calculateVar1(self._processed_cats1, low_mem=low_mem)
                 if var1 is not None:
                     self.logger.info(f"var%s = %f: {self._sig1} = %f",
-                                     self._letter1.lower(), var1, math.sqrt(var1))
+                                     self._letter1.lower(), var1, math.sqrt(abs(var1)))
             else:
                 var1 = self._calculateVar1(self._processed_cats1, low_mem=low_mem)
                 var2 = self._calculateVar2(self._processed_cats2, low_mem=low_mem)
                 if self._letter1 == self._letter2:
                     if var1 is not None:
                         self.logger.info(f"var%s1 = %f: {self._sig1} = %f",
-                                         self._letter1, var1, math.sqrt(var1))
+                                         self._letter1, var1, math.sqrt(abs(var1)))
                         self.logger.info(f"var%s2 = %f: {self._sig2} = %f",
-                                         self._letter2, var2, math.sqrt(var2))
+                                         self._letter2, var2, math.sqrt(abs(var2)))
                 else:
                     if var1 is not None:
                         self.logger.info(f"var%s = %f: {self._sig1} = %f",
-                                         self._letter1, var1, math.sqrt(var1))
+                                         self._letter1, var1, math.sqrt(abs(var1)))
                     self.logger.info(f"var%s = %f: {self._sig2} = %f",
-                                     self._letter2, var2, math.sqrt(var2))
+                                     self._letter2, var2, math.sqrt(abs(var2)))
             if var1 is None:
                 if var2 is None:
                     self.finalize()
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index f17e13c..7637b81 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1808,27 +1808,27 @@ class Corr3(object):
                 var1 = var2 = var3 = self._calculateVar1(cat1, low_mem=low_mem)
                 if var1 is not None:
                     self.logger.info(f"var%s = %f: {self._sig1} = %f",
-                                     self._letter1.lower(), var1, math.sqrt(var1))
+                                     self._letter1.lower(), var1, math.sqrt(abs(var1)))
             elif cat3 is None:
                 var1 = self._calculateVar1(cat1, low_mem=low_mem)
                 var2 = var3 = self._calculateVar2(cat2, low_mem=low_mem)
                 # For now, only the letter1 == letter2 case until we add cross type 3pt.
                 if var1 is not None:
                     self.logger.info(f"var%s1 = %f: {self._sig1} = %f",
-                                     self._letter1, var1, math.sqrt(var1))
+                                     self._letter1, var1, math.sqrt(abs(var1)))
                     self.logger.info(f"var%s2 = %f: {self._sig2} = %f",
-                                     self._letter2, var2, math.sqrt(var2))
+                                     self._letter2, var2, math.sqrt(abs(var2)))
             else:
                 var1 = self._calculateVar1(cat1, low_mem=low_mem)
                 var2 = self._calculateVar2(cat2, low_mem=low_mem)
                 var3 = self._calculateVar3(cat3, low_mem=low_mem)
                 if var1 is not None:
                     self.logger.info(f"var%s1 = %f: {self._sig1} = %f",
-                                     self._letter1, var1, math.sqrt(var1))
+                                     self._letter1, var1, math.sqrt(abs(var1)))
                     self.logger.info(f"var%s2 = %f: {self._sig2} = %f",
-                                     self._letter2, var2, math.sqrt(var2))
+                                     self._letter2, var2, math.sqrt(abs(var2)))
                     self.logger.info(f"var%s3 = %f: {self._sig3} = %f",
-                                     self._letter3, var3, math.sqrt(var3))
+                                     self._letter3, var3, math.sqrt(abs(var3)))
             if var1 is None:
                 self.finalize()
             else:
-- 
2.43.0


From 9ec5fecc6e3bd7f64ea7c3bb0854df8e2243d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 22/47] fix: meanlogd3 of unordered multipole
 cross-correlations used the weight of the wrong bin

---
 src/Corr3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index a1980c9..759576c 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -1459,7 +1459,7 @@ void Corr3<D1,D2,D3>::calculateZeta(
                 _meand3[i] += w1 * (mp2.sumw[k2] * mp3.sumwr[k3] +
                                     mp3.sumw[k2] * mp2.sumwr[k3]);
                 _meanlogd3[i] += w1 * (mp2.sumw[k2] * mp3.sumwlogr[k3] +
-                                       mp3.sumw[k3] * mp2.sumwlogr[k3]);
+                                       mp3.sumw[k2] * mp2.sumwlogr[k3]);
             }
             i += (_nbins - k3end) * nnbins;
         }
-- 
2.43.0


From 7bb8fb2a42019deaa7d3eea047b5f0181d0d8d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 23/47] fix: Catalog.resize_cache had no effect on kinds of
 field that were not requested yet (nor LRU_Cache(f, 0))

---
 treecorr/catalog.py | 14 +++++++-------
 treecorr/util.py    |  1 +
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 7370e23..22b5da0 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2324,13 +2324,13 @@ class Catalog(object):
         Parameters:
             maxsize (float):    The new maximum number of fields of each type to cache.
         """
-        if hasattr(self, '_nfields'): self.nfields.resize(maxsize)
-        if hasattr(self, '_kfields'): self.kfields.resize(maxsize)
-        if hasattr(self, '_zfields'): self.zfields.resize(maxsize)
-        if hasattr(self, '_vfields'): self.vfields.resize(maxsize)
-        if hasattr(self, '_gfields'): self.gfields.resize(maxsize)
-        if hasattr(self, '_tfields'): self.tfields.resize(maxsize)
-        if hasattr(self, '_qfields'): self.qfields.resize(maxsize)
+        self.nfields.resize(maxsize)
+        self.kfields.resize(maxsize)
+        self.zfields.resize(maxsize)
+        self.vfields.resize(maxsize)
+        self.gfields.resize(maxsize)
+        self.tfields.resize(maxsize)
+        self.qfields.resize(maxsize)
 
     def clear_cache(self):
         """Clear all field caches.
diff --git a/treecorr/util.py b/treecorr/util.py
index 0fcc205..3e7acd1 100644
--- a/treecorr/util.py
+++ b/treecorr/util.py
@@ -203,6 +203,7 @@ class LRU_Cache(object):
             key = object()
             self.cache[key] = last[1] = last = [last, self.root, key, None]
         self.root[0] = last
+        last[1] = self.root  # (Only needed if maxsize = 0)
         self.count = 0
 
     def __call__(self, *key, **kwargs):
-- 
2.43.0


From 3596b19c2edcb182c6aed1b8b974c21e7ce55ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 24/47] fix: get_near with min_size > 0 on a spherical field of
 a catalog with r values used positions off the unit sphere

---
 treecorr/field.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/treecorr/field.py b/treecorr/field.py
index 6946bea..9e438a3 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -250,9 +250,13 @@ class Field(object):
             # Get those indices
             ind = self._get_near(x, y, z, sep1)
             # Now check the actual radii of these points using the catalog x,y,z values.
-            rsq = (self.cat.x[ind]-x)**2 + (self.cat.y[ind]-y)**2
+            rr = 1.
+            if self._coords == _treecorr.Sphere:
+                # The positions in the field are all on the unit sphere, even if the catalog has r.
+                rr = np.sqrt(self.cat.x[ind]**2 + self.cat.y[ind]**2 + self.cat.z[ind]**2)
+            rsq = (self.cat.x[ind]/rr-x)**2 + (self.cat.y[ind]/rr-y)**2
             if self._coords != _treecorr.Flat:
-                rsq += (self.cat.z[ind]-z)**2
+                rsq += (self.cat.z[ind]/rr-z)**2
             # Select the ones with r < sep
             near = rsq < sep**2
             ind = ind[near]
-- 
2.43.0


From 265803dea58d4a3e06c33e63b99ccd4275c2c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 25/47] fix: kmeans++ initialization compared to centers not
 set yet, and failed for points at the origin, duplicated points and brute
 fields

---
 src/KMeans.cpp | 65 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index 5fbf3e8..1416097 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -18,6 +18,7 @@
 
 #include <vector>
 #include <cmath>
+#include <limits>
 #include "Field.h"
 #include "Cell.h"
 #include "dbg.h"
@@ -156,12 +157,14 @@ void InitializeCentersRand(std::vector<Position<C> >& centers,
     }
 }
 
+// Thrown by InitializeCentersKMPP if all the leaves in a cell have already been used as centers.
+struct LeafAlreadyUsed {};
+
+// Note: Only the first ncen centers have been set so far.
 template <int C>
 Position<C> InitializeCentersKMPP(const BaseCell<C>* cell,
                                   const std::vector<Position<C> >& centers, long ncen)
 {
-    struct LeafAlreadyUsed {};
-
     xdbg<<"Start recursive InitializeCentersKMPP\n";
 
     // If we are in a leaf, then return this position as the next center to use.
@@ -192,9 +195,10 @@ Position<C> InitializeCentersKMPP(const BaseCell<C>* cell,
     }
     xdbg<<"dsq1 = "<<dsq1<<", dsq2 = "<<dsq2<<std::endl;
     if (dsq1 + dsq2 == 0.) {
-        dbg<<"All used.  Throw exception and try other branch.\n";
+        // Both daughters are centered on existing centers.  There may still be unused leaves
+        // in either one though, so pick one at random.
         xdbg<<"N1 = "<<left->getN()<<"  N2 = "<<right->getN()<<std::endl;
-        throw LeafAlreadyUsed();
+        dsq1 = dsq2 = 1.;
     }
 
     double u = urand() * (dsq1 + dsq2);
@@ -289,27 +293,48 @@ void InitializeCentersKMPP(std::vector<Position<C> >& centers,
             //       Not sure how important it is though, since I think the Tree initialization is
             //       normally better, so this is not a very important use case.
             const double coef = C == ThreeD ? 0.6 : 0.5;
-            p[k] = (cells[k]->getN() -
-                        centers_per_cell[k]) * (dsq1 + coef * SQR(cells[k]->getSize()));
+            // Note: If the field was built with brute=True, the size is infinite, so don't use it.
+            double s = cells[k]->getSize();
+            if (s > 0.1 * std::numeric_limits<double>::max()) s = 0.;
+            p[k] = (cells[k]->getN() - centers_per_cell[k]) * (dsq1 + coef * SQR(s));
             sump += p[k];
         }
-        double u = urand();
-        xdbg<<"u = "<<u<<std::endl;
-        for (long k=0; k<ncells; ++k) {
-            p[k] /= sump;
-            xdbg<<"Prob("<<k<<") = "<<p[k]<<std::endl;
-            if (u < p[k]) {
-                dbg<<"Choose next center from cell "<<k<<std::endl;
-                xdbg<<"N = "<<cells[k]->getN()<<" ncen so far = "<<centers_per_cell[k]<<std::endl;
-                centers[i] = InitializeCentersKMPP(cells[k], centers, ncenters);
-                xdbg<<"center["<<i<<"] = "<<centers[i]<<std::endl;
-                centers_per_cell[k] += 1;
-                break;
-            } else {
+        // Normally, one try is enough, but if all the leaves in a cell turn out to have already
+        // been used (e.g. because some points are duplicated), try again without that cell.
+        bool found = false;
+        while (!found && sump > 0.) {
+            double u = urand() * sump;
+            xdbg<<"u = "<<u<<std::endl;
+            long k1 = -1;
+            for (long k=0; k<ncells; ++k) {
+                xdbg<<"Prob("<<k<<") = "<<p[k]/sump<<std::endl;
+                if (p[k] <= 0.) continue;
+                k1 = k;
+                if (u < p[k]) break;
                 u -= p[k];
                 xdbg<<"u -> "<<u<<std::endl;
-                Assert(k != ncells-1);
             }
+            Assert(k1 >= 0);
+            dbg<<"Choose next center from cell "<<k1<<std::endl;
+            xdbg<<"N = "<<cells[k1]->getN()<<" ncen so far = "<<centers_per_cell[k1]<<std::endl;
+            try {
+                centers[i] = InitializeCentersKMPP(cells[k1], centers, i);
+                xdbg<<"center["<<i<<"] = "<<centers[i]<<std::endl;
+                centers_per_cell[k1] += 1;
+                found = true;
+            } catch (LeafAlreadyUsed) {
+                dbg<<"No unused leaves in this cell\n";
+                p[k1] = 0.;
+                sump = 0.;
+                for (long k=0; k<ncells; ++k) sump += p[k];
+            }
+        }
+        if (!found) {
+            // There are fewer distinct points than centers.  As for the random initialization,
+            // arbitrarily shift a repeated point by a random small value.
+            dbg<<"No unused points.  Repeat one of the existing centers\n";
+            centers[i] = centers[long(urand() * i) % i];
+            centers[i] *= (1. + urand() * 1.e-8);
         }
     }
 }
-- 
2.43.0


From f48cf92a937fb23973e300f9bf27bff1ecc297ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 26/47] fix: the center of a k-means patch with no points moved
 to the origin

---
 src/KMeans.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index 1416097..92ca941 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -837,6 +837,10 @@ void KMeansRun1(BaseField<C>& field, double* pycenters, int npatch, int max_iter
         update_centers.reset();
         FindCellsInPatches(centers, cells, update_centers, pinertia);
         update_centers.finalize();
+        // If a patch ended up with no points, leave its center where it was.
+        for (int i=0; i<npatch; ++i) {
+            if (!(update_centers.w[i] > 0.)) update_centers.new_centers[i] = centers[i];
+        }
         xdbg<<"After UpdateCenters\n";
 
         // Check for convergence
-- 
2.43.0


From 162ff25156b07fde6c8e25567cd0d0bd5adbc0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:11 +0000
Subject: [PATCH 27/47] fix: sample_pairs returned pairs outside the range, or
 merged, after other uses of the catalog

The field in cat.field may have been made with other sizes, and the cells were allowed to
fill a bin whose edges are not the limits of the requested range.
---
 src/Corr2.cpp         | 14 +++++++++++++
 treecorr/corr2base.py | 49 +++++++++++++++++++------------------------
 2 files changed, 35 insertions(+), 28 deletions(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index e12ce1d..190b49a 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -713,6 +713,20 @@ Sampler::Sampler(const BaseCorr2& base_corr2, double minsep, double maxsep,
     _halfminsep = 0.5*_minsep;
     _minsepsq = _minsep*_minsep;
     _maxsepsq = _maxsep*_maxsep;
+    // The tests for whether a pair of cells fits in a single bin assume that minsep and maxsep
+    // are edges of bins, so adjust the bins (keeping about the same size) to make this true.
+    if (_minsep < _maxsep) {
+        double minr = _minsep;
+        if (_bin_type == Log && _minsep <= 0.) {
+            // Then extend the bins down to the smallest possible separations.
+            minr = _maxsep * 1.e-30;
+            _logminsep = log(minr);
+        }
+        double full = _bin_type == Log ? log(_maxsep/minr) :
+            _bin_type == Linear ? _maxsep-minr : 2.*_maxsep;
+        _nbins = std::max(1, int(ceil(full/_binsize - 1.e-6)));
+        _binsize = full/_nbins;
+    }
     _fullmaxsep = CalculateFullMaxSep(base_corr2.getBinType(), _minsep, _maxsep, _nbins, _binsize);
     _fullmaxsepsq = _fullmaxsep*_fullmaxsep;
 }
diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 655c05e..a017170 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1429,7 +1429,9 @@ class Corr2(object):
         self.meanr[mask] /= self._sep_units
         self.meanlogr[mask] -= self._log_sep_units
 
-    def _get_minmax_size(self):
+    def _get_minmax_size(self, min_sep=None, max_sep=None):
+        if min_sep is None: min_sep = self._min_sep
+        if max_sep is None: max_sep = self._max_sep
         if self.metric == 'Euclidean':
             # The minimum size cell that will be useful is one where two cells that just barely
             # don't split have (d + s1 + s2) = minsep
@@ -1441,18 +1443,18 @@ class Corr2(object):
             #        = b * minsep / (2+3b)
             if self.bin_type == 'Log':
                 b1 = min(self.angle_slop, self.b)
-                min_size = self._min_sep * b1 / (2.+3.*b1)
+                min_size = min_sep * b1 / (2.+3.*b1)
             else:
                 a = self.angle_slop
-                min_size = min(a * self._min_sep / (2.+3.*a), self.b/2.)
+                min_size = min(a * min_sep / (2.+3.*a), self.b/2.)
 
             # The maximum size cell that will be useful is one where a cell of size s will
             # be split at the maximum separation even if the other size = 0.
             # i.e. max_size = max_sep * b
             if self.bin_type == 'Log':
-                max_size = self._max_sep * b1
+                max_size = max_sep * b1
             else:
-                max_size = min(a * self._max_sep, self.b)
+                max_size = min(a * max_sep, self.b)
 
             return min_size, max_size
         else:
@@ -1519,33 +1521,24 @@ class Corr2(object):
 
         self._set_metric(metric, cat1.coords, cat2.coords)
 
-        f1 = cat1.field
-        f2 = cat2.field
-
-        if f1 is None or f1._coords != self._coords:
-            # I don't really know if it's possible to get the coords out of sync,
-            # so the 2nd check might be superfluous.
-            # The first one though is definitely possible, so we need to check that.
-            self.logger.debug("In sample_pairs, making default field for cat1")
-            min_size, max_size = self._get_minmax_size()
-            f1 = cat1.getNField(min_size=min_size, max_size=max_size,
-                                split_method=self.split_method,
-                                brute=self.brute is True or self.brute == 1,
-                                min_top=self.min_top, max_top=self.max_top,
-                                coords=self.coords)
-        if f2 is None or f2._coords != self._coords:
-            self.logger.debug("In sample_pairs, making default field for cat2")
-            min_size, max_size = self._get_minmax_size()
-            f2 = cat2.getNField(min_size=min_size, max_size=max_size,
-                                split_method=self.split_method,
-                                brute=self.brute is True or self.brute == 2,
-                                min_top=self.min_top, max_top=self.max_top,
-                                coords=self.coords)
-
         # Apply units to min_sep, max_sep:
         min_sep *= self._sep_units
         max_sep *= self._sep_units
 
+        # Note: Don't use cat1.field or cat2.field here.  They may have been made with different
+        # parameters from what is required for this range of separations.
+        min_size, max_size = self._get_minmax_size(min_sep, max_sep)
+        f1 = cat1.getNField(min_size=min_size, max_size=max_size,
+                            split_method=self.split_method,
+                            brute=self.brute is True or self.brute == 1,
+                            min_top=self.min_top, max_top=self.max_top,
+                            coords=self.coords)
+        f2 = cat2.getNField(min_size=min_size, max_size=max_size,
+                            split_method=self.split_method,
+                            brute=self.brute is True or self.brute == 2,
+                            min_top=self.min_top, max_top=self.max_top,
+                            coords=self.coords)
+
         i1 = np.zeros(n, dtype=int)
         i2 = np.zeros(n, dtype=int)
         sep = np.zeros(n, dtype=float)
-- 
2.43.0


From 78794aba452dccf23c02c4edb4c455ff7e28e312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 28/47] fix: OldRperp lost every pair of two infinitely large
 cells at the same distance

With brute, all cells have infinite size, and (1 + 0.25*(r1sq-r2sq)/r2sq) is exactly 1
when the distances agree.  The test against infinity is folded away by -ffast-math, so
s2 *= ... gave NaN, and the pair of cells was dropped.
---
 include/Metric.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Metric.h b/include/Metric.h
index 77acc4d..bc1b77e 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -300,7 +300,7 @@ struct MetricHelper<OldRperp, P>
         if (r1sq < r2sq) {
             if (s1 != 0. && s1 < std::numeric_limits<double>::infinity())
                 s1 *= (1. + 0.25 * (r2sq-r1sq)/r1sq);
-        } else {
+        } else if (r2sq < r1sq) {
             if (s2 != 0. && s2 < std::numeric_limits<double>::infinity())
                 s2 *= (1. + 0.25 * (r1sq-r2sq)/r2sq);
         }
-- 
2.43.0


From 8be8e7c27af5129307a85f479aff6d0ca27aacb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 29/47] fix: a copied correlation shared its per-patch results
 and catalog lists with the original

Processing more data into the copy (or the original) changed the results of the other one.
Also, accumulating a second 3pt auto-correlation dropped the tot of a patch whose first
result had no triangles.
---
 treecorr/corr2base.py      | 14 ++++++++------
 treecorr/corr3base.py      | 11 +++++++----
 treecorr/nncorrelation.py  |  1 +
 treecorr/nnncorrelation.py |  1 +
 4 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index a017170..e8ca1b3 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -678,9 +678,11 @@ class Corr2(object):
                 # In particular don't deep copy config or logger
                 # Most of the rest are scalars, which copy fine this way.
                 # And the read-only things are all in _ro.
-                # The results dict is trickier.  We rely on it being copied in places, but we
-                # never add more to it after the copy, so shallow copy is fine.
                 ret.__dict__[key] = item
+        # The containers may be changed later, so copy them.  The items in them never change.
+        for key in ['results', '_processed_cats1', '_processed_cats2']:
+            if key in ret.__dict__:
+                ret.__dict__[key] = ret.__dict__[key].copy()
         ret._corr = None # We'll want to make a new one of these if we need it.
         return ret
 
@@ -896,10 +898,10 @@ class Corr2(object):
                         temp._clear()
                         self.logger.info('Process patch %d auto',i)
                         temp.process_auto(c1, metric=metric, num_threads=num_threads)
-                        if (i,i) not in self.results:
-                            self.results[(i,i)] = temp.copy()
-                        else:
-                            self.results[(i,i)] += temp
+                        prev = self.results.get((i,i), None)
+                        self.results[(i,i)] = temp.copy()
+                        if prev is not None:
+                            self.results[(i,i)] += prev
                         self += temp
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 7637b81..ea4c9e4 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1070,6 +1070,9 @@ class Corr3(object):
                 # In particular don't deep copy config or logger
                 # Most of the rest are scalars, which copy fine this way.
                 ret.__dict__[key] = item
+        # The results dict may be changed later, so copy it.  The items in it never change.
+        if 'results' in ret.__dict__:
+            ret.results = ret.results.copy()
         ret._corr = None # We'll want to make a new one of these if we need it.
         return ret
 
@@ -1255,10 +1258,10 @@ class Corr3(object):
                         temp._clear()
                         self.logger.info('Process patch %d auto',i)
                         temp.process_auto(c1, metric=metric, num_threads=num_threads)
-                        if (i,i,i) in self.results and self.results[(i,i,i)].nonzero:
-                            self.results[(i,i,i)] += temp
-                        else:
-                            self.results[(i,i,i)] = temp.copy()
+                        prev = self.results.get((i,i,i), None)
+                        self.results[(i,i,i)] = temp.copy()
+                        if prev is not None:
+                            self.results[(i,i,i)] += prev
                         self += temp
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index f6c8d0d..1be6f95 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -259,6 +259,7 @@ class NNCorrelation(Corr2):
         # to save some time.
         # But if there already is a result for this pair, just add to its tot value.
         if ij in self.results:
+            self.results[ij] = self.results[ij].copy()
             self.results[ij].tot += tot
         else:
             self.results[ij] = self._zero_copy(tot)
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index bc9e6f4..c85d843 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -362,6 +362,7 @@ class NNNCorrelation(Corr3):
         # the resulting weight is zero.
         # But if there already is a result for this triple, just add to its tot value.
         if ijk in self.results:
+            self.results[ijk] = self.results[ijk].copy()
             self.results[ijk].tot += tot
         else:
             self.results[ijk] = self._zero_copy(tot)
-- 
2.43.0


From 34ddf11ab7a00c83bbfc527ff180eed346c461d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 30/47] fix: += accepted correlations with another bin_type,
 and failed for an empty one

---
 treecorr/corr2base.py | 4 +++-
 treecorr/corr3base.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index e8ca1b3..6353b93 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1235,11 +1235,13 @@ class Corr2(object):
         if not isinstance(other, self.__class__):
             raise TypeError(f"Can only add another {self._cls} object")
         if not (self._nbins == other._nbins and
+                self.bin_type == other.bin_type and
                 self.min_sep == other.min_sep and
                 self.max_sep == other.max_sep):
             raise ValueError(f"{self._cls} to be added is not compatible with this one.")
 
-        self._set_metric(other.metric, other.coords, other.coords)
+        if other.coords is not None:
+            self._set_metric(other.metric, other.coords, other.coords)
         if not other.nonzero: return self
         self._xi1[:] += other._xi1
         self._xi2[:] += other._xi2
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index ea4c9e4..c8b54bd 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1942,7 +1942,8 @@ class Corr3(object):
         if not self._equal_binning(other, brief=True):
             raise ValueError(f"{self._cls} to be added is not compatible with this one.")
 
-        self._set_metric(other.metric, other.coords, other.coords, other.coords)
+        if other.coords is not None:
+            self._set_metric(other.metric, other.coords, other.coords, other.coords)
         if not other.nonzero: return self
         self._z1[:] += other._z1[:]
         self._z2[:] += other._z2[:]
-- 
2.43.0


From cac4bfa66472fbc244f998f526206fe7dfab64e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 31/47] fix: meanphi was set to radians rather than phi_units
 in bins with no triangles

---
 treecorr/corr3base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index c8b54bd..ad1654d 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1882,7 +1882,7 @@ class Corr3(object):
             self.meand3[mask2] = self.d3nom[mask2]
             self.meanlogd3[mask2] = self.logd3[mask2]
             if self.bin_type == 'LogSAS':
-                self.meanu[mask2] = self.phi[mask2]
+                self.meanu[mask2] = self.phi[mask2] / self._phi_units
                 self.meand1[mask2] = np.sqrt(self.d2nom[mask2]**2 + self.d3nom[mask2]**2
                                              - 2*self.d2nom[mask2]*self.d3nom[mask2]*
                                              np.cos(self.phi[mask2]))
-- 
2.43.0


From 51d935ffd871ff0d5f3ef9bec725405d345340eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 32/47] fix: 3pt process with initialize=False used only the
 last catalogs for the variance

As for 2pt correlations, keep all the catalogs processed since the last initialization,
so that the variance is that of everything that was processed.
---
 treecorr/corr3base.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index ad1654d..44f228f 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -736,6 +736,9 @@ class Corr3(object):
         self._ro.num_bootstrap = get(self.config,'num_bootstrap',int,500)
         self.results = {}  # for jackknife, etc. store the results of each pair of patches.
         self.npatch1 = self.npatch2 = self.npatch3 = 1
+        self._processed_cats1 = []
+        self._processed_cats2 = []
+        self._processed_cats3 = []
         self._rng = rng
 
     def __init_subclass__(cls):
@@ -1070,9 +1073,10 @@ class Corr3(object):
                 # In particular don't deep copy config or logger
                 # Most of the rest are scalars, which copy fine this way.
                 ret.__dict__[key] = item
-        # The results dict may be changed later, so copy it.  The items in it never change.
-        if 'results' in ret.__dict__:
-            ret.results = ret.results.copy()
+        # The containers may be changed later, so copy them.  The items in them never change.
+        for key in ['results', '_processed_cats1', '_processed_cats2', '_processed_cats3']:
+            if key in ret.__dict__:
+                ret.__dict__[key] = ret.__dict__[key].copy()
         ret._corr = None # We'll want to make a new one of these if we need it.
         return ret
 
@@ -1794,6 +1798,9 @@ class Corr3(object):
 
         if initialize:
             self.clear()
+            self._processed_cats1.clear()
+            self._processed_cats2.clear()
+            self._processed_cats3.clear()
 
         if cat2 is None:
             if cat3 is not None:
@@ -1806,15 +1813,20 @@ class Corr3(object):
             self._process_all_cross(cat1, cat2, cat3, metric, ordered, num_threads, comm, low_mem,
                                     local)
 
+        self._processed_cats1.extend(cat1)
+        if cat2 is not None:
+            self._processed_cats2.extend(cat2)
+        if cat3 is not None:
+            self._processed_cats3.extend(cat3)
         if finalize:
             if cat2 is None:
-                var1 = var2 = var3 = self._calculateVar1(cat1, low_mem=low_mem)
+                var1 = var2 = var3 = self._calculateVar1(self._processed_cats1, low_mem=low_mem)
                 if var1 is not None:
                     self.logger.info(f"var%s = %f: {self._sig1} = %f",
                                      self._letter1.lower(), var1, math.sqrt(abs(var1)))
             elif cat3 is None:
-                var1 = self._calculateVar1(cat1, low_mem=low_mem)
-                var2 = var3 = self._calculateVar2(cat2, low_mem=low_mem)
+                var1 = self._calculateVar1(self._processed_cats1, low_mem=low_mem)
+                var2 = var3 = self._calculateVar2(self._processed_cats2, low_mem=low_mem)
                 # For now, only the letter1 == letter2 case until we add cross type 3pt.
                 if var1 is not None:
                     self.logger.info(f"var%s1 = %f: {self._sig1} = %f",
@@ -1822,9 +1834,9 @@ class Corr3(object):
                     self.logger.info(f"var%s2 = %f: {self._sig2} = %f",
                                      self._letter2, var2, math.sqrt(abs(var2)))
             else:
-                var1 = self._calculateVar1(cat1, low_mem=low_mem)
-                var2 = self._calculateVar2(cat2, low_mem=low_mem)
-                var3 = self._calculateVar3(cat3, low_mem=low_mem)
+                var1 = self._calculateVar1(self._processed_cats1, low_mem=low_mem)
+                var2 = self._calculateVar2(self._processed_cats2, low_mem=low_mem)
+                var3 = self._calculateVar3(self._processed_cats3, low_mem=low_mem)
                 if var1 is not None:
                     self.logger.info(f"var%s1 = %f: {self._sig1} = %f",
                                      self._letter1, var1, math.sqrt(abs(var1)))
@@ -1836,6 +1848,9 @@ class Corr3(object):
                 self.finalize()
             else:
                 self.finalize(var1, var2, var3)
+            self._processed_cats1.clear()
+            self._processed_cats2.clear()
+            self._processed_cats3.clear()
 
     def _finalize(self):
         mask1 = self.weightr != 0
-- 
2.43.0


From b6954fd52289fdc62d443b92943558750dcc1f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 33/47] fix: clear() kept the variance, catalog lists and
 calculateXi results of earlier use

---
 treecorr/corr2base.py      |  5 +++--
 treecorr/corr3base.py      |  7 ++++---
 treecorr/nncorrelation.py  | 10 ++++++++++
 treecorr/nnncorrelation.py | 10 ++++++++++
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 6353b93..7db44b2 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -711,6 +711,9 @@ class Corr2(object):
         self._clear()
         self.results = {}
         self.npatch1 = self.npatch2 = 1
+        self._var_num = 0
+        self._processed_cats1 = []
+        self._processed_cats2 = []
         self.__dict__.pop('_ok',None)
 
     @property
@@ -1138,8 +1141,6 @@ class Corr2(object):
             raise TypeError(f"cat2 is required for {self._cls}.process")
         if initialize:
             self.clear()
-            self._processed_cats1.clear()
-            self._processed_cats2.clear()
 
         if patch_method not in ['local', 'global']:
             raise ValueError("Invalid patch_method %s"%patch_method)
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 44f228f..2759bcf 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1105,6 +1105,10 @@ class Corr3(object):
         self._clear()
         self.results = {}
         self.npatch1 = self.npatch2 = self.npatch3 = 1
+        self._var_num = 0
+        self._processed_cats1 = []
+        self._processed_cats2 = []
+        self._processed_cats3 = []
         self.__dict__.pop('_ok',None)
 
     @property
@@ -1798,9 +1802,6 @@ class Corr3(object):
 
         if initialize:
             self.clear()
-            self._processed_cats1.clear()
-            self._processed_cats2.clear()
-            self._processed_cats3.clear()
 
         if cat2 is None:
             if cat3 is not None:
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 1be6f95..b1bf3cb 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -211,6 +211,16 @@ class NNCorrelation(Corr2):
         # The lazy version when we can be sure the object isn't going to accumulate any more.
         return self.nonzero
 
+    def clear(self):
+        """Clear all data vectors, the results dict, and any related values.
+        """
+        super().clear()
+        # Including the results of any previous calculateXi.
+        self._rr = self._dr = self._rd = None
+        self._rr_weight = None
+        self.__dict__.pop('xi',None)
+        self.__dict__.pop('varxi',None)
+
     def _clear(self):
         """Clear the data vectors
         """
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index c85d843..d45cb71 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -317,6 +317,16 @@ class NNNCorrelation(Corr3):
         # The lazy version when we can be sure the object isn't going to accumulate any more.
         return self.nonzero
 
+    def clear(self):
+        """Clear all data vectors, the results dict, and any related values.
+        """
+        super().clear()
+        # Including the results of any previous calculateZeta.
+        self._rrr = self._drr = self._rdd = None
+        self._rrr_weight = None
+        self.zeta = None
+        self.__dict__.pop('varzeta',None)
+
     def _clear(self):
         super()._clear()
         self.tot = 0.
-- 
2.43.0


From 11e83a48a148889e1ef919b229cce8343015fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 34/47] fix: variances and covariances looked at before
 finalize, or patch pairs counted before another process, were kept

---
 treecorr/corr2base.py     | 9 +++++++++
 treecorr/corr3base.py     | 9 +++++++++
 treecorr/nkcorrelation.py | 1 +
 treecorr/nzcorrelation.py | 1 +
 4 files changed, 20 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 7db44b2..00df742 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1141,6 +1141,7 @@ class Corr2(object):
             raise TypeError(f"cat2 is required for {self._cls}.process")
         if initialize:
             self.clear()
+        self.__dict__.pop('_ok',None)  # There may be more results than before.
 
         if patch_method not in ['local', 'global']:
             raise ValueError("Invalid patch_method %s"%patch_method)
@@ -1190,7 +1191,15 @@ class Corr2(object):
             self._processed_cats1.clear()
             self._processed_cats2.clear()
 
+    def _reset_cov(self):
+        # Anything computed on demand from the current values needs to be redone if they change.
+        self._cov = None
+        for name in ('_varxi', '_varxip', '_varxim', '_raw_varxi'):
+            if name in self.__dict__:
+                setattr(self, name, None)
+
     def _finalize(self):
+        self._reset_cov()
         mask1 = self.weight != 0
         mask2 = self.weight == 0
 
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 2759bcf..27e503b 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1802,6 +1802,7 @@ class Corr3(object):
 
         if initialize:
             self.clear()
+        self.__dict__.pop('_ok',None)  # There may be more results than before.
 
         if cat2 is None:
             if cat3 is not None:
@@ -1853,7 +1854,15 @@ class Corr3(object):
             self._processed_cats2.clear()
             self._processed_cats3.clear()
 
+    def _reset_cov(self):
+        # Anything computed on demand from the current values needs to be redone if they change.
+        self._cov = None
+        for name in ('_varzeta', '_vargam0', '_vargam1', '_vargam2', '_vargam3'):
+            if name in self.__dict__:
+                setattr(self, name, None)
+
     def _finalize(self):
+        self._reset_cov()
         mask1 = self.weightr != 0
         mask2 = self.weightr == 0
 
diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 2bbb3f9..9c90eb1 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -150,6 +150,7 @@ class NKCorrelation(Corr2):
         self._finalize()
         self._var_num = vark
         self.xi = self.raw_xi
+        self._rk = None
 
     @property
     def raw_varxi(self):
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 9d90df5..976b007 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -71,6 +71,7 @@ class BaseNZCorrelation(Corr2):
 
         self.xi = self.raw_xi
         self.xi_im = self.raw_xi_im
+        self._rz = None
 
     @property
     def raw_varxi(self):
-- 
2.43.0


From decbfd1722ce78e762386f684976ae3f72031abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:41 +0000
Subject: [PATCH 35/47] fix: brute=True read from a numpy bool was treated as
 brute=1, and numpy integers were rejected

---
 treecorr/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/treecorr/config.py b/treecorr/config.py
index cadaf84..6a46d1e 100644
--- a/treecorr/config.py
+++ b/treecorr/config.py
@@ -77,10 +77,11 @@ def parse_bool(value):
             else:
                 return int(value)
     elif isinstance(value,(bool, np.bool_)):
-        return value
-    elif isinstance(value,int):
+        # Note: np.bool_ needs to be converted to regular bool, since we test whether brute is True.
+        return bool(value)
+    elif isinstance(value,(int, np.integer)):
         # Note: integers aren't converted to bool, since brute distinguishes 1 vs 2 vs True.
-        return value
+        return int(value)
     else:
         raise ValueError("Unable to parse %s as a bool."%value)
 
-- 
2.43.0


From a2acdd7b70d45ac32389bc7c5a1dbd3f22fec34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:41 +0000
Subject: [PATCH 36/47] fix: correlations read back lost the shot noise, RR
 weights and complex or ASCII covariances, kept stale state, and were unsafe
 to process further

---
 treecorr/corr2base.py      | 26 ++++++++++++++++++++++++--
 treecorr/corr3base.py      | 28 ++++++++++++++++++++++++++--
 treecorr/nncorrelation.py  |  3 +++
 treecorr/nnncorrelation.py |  3 +++
 treecorr/reader.py         |  4 ++--
 5 files changed, 58 insertions(+), 6 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 00df742..497e739 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1730,6 +1730,8 @@ class Corr2(object):
         params['coords'] = self.coords
         params['metric'] = self.metric
         params['corr'] = self._letters
+        # And the numerator of the shot-noise variance.
+        params['var_num'] = float(getattr(self, '_var_num', 0))
         return params
 
     def _write(self, writer, name, write_patch_results, write_cov=False, zero_tot=False):
@@ -1746,7 +1748,6 @@ class Corr2(object):
             # results.  Otherwise, the corr that is read in will behave oddly.
             params['npatch1'] = self.npatch1
             params['npatch2'] = self.npatch2
-            params['num_rows'] = len(self.rnom.ravel())
             num_patch_pairs = len(self.results)
             if zero_tot:
                 i = 0
@@ -1760,6 +1761,10 @@ class Corr2(object):
             params['num_patch_pairs'] = num_patch_pairs
         if write_cov:
             params['cov_shape'] = self.cov.shape
+            params['cov_complex'] = np.iscomplexobj(self.cov)
+        if write_patch_results or write_cov:
+            # More data follow these in the same file, so the reader needs to know where to stop.
+            params['num_rows'] = len(self.rnom.ravel())
 
         writer.write(col_names, data, params=params, ext=name)
         if write_patch_results:
@@ -1776,9 +1781,12 @@ class Corr2(object):
                 i += 1
             assert i == num_patch_pairs
         if write_cov:
-            writer.write_array(self.cov, ext='cov')
+            writer.write_array(self.cov.real, ext='cov')
+            if np.iscomplexobj(self.cov):
+                writer.write_array(self.cov.imag, ext='cov_im')
 
     def _read(self, reader, name=None, params=None):
+        self.clear()  # Don't keep anything from what might have been here before.
         name = 'main' if 'main' in reader and name is None else name
         if params is None:
             params = reader.read_params(ext=name)
@@ -1786,12 +1794,14 @@ class Corr2(object):
         num_patch_pairs = params.get('num_patch_pairs', 0)
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
+        cov_complex = params.get('cov_complex', False)
         name = 'main' if num_patch_pairs and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
         # This helper function defines how to set the attributes for each class
         # based on what was read in.
         self._read_from_data(data, params)
+        self._reset_corr()
 
         self.results = {}
         for i in range(num_zero_patch):
@@ -1801,6 +1811,7 @@ class Corr2(object):
         for i in range(num_patch_pairs):
             pp_name = name + '_pp_%d'%i
             corr = self.copy()
+            corr.clear()
             params = reader.read_params(ext=pp_name)
             data = reader.read_data(max_rows=num_rows, ext=pp_name)
             corr._read_from_data(data, params)
@@ -1810,6 +1821,16 @@ class Corr2(object):
             if isinstance(cov_shape, str):
                 cov_shape = eval(cov_shape)
             self._cov = reader.read_array(cov_shape, ext='cov')
+            if cov_complex:
+                self._cov = self._cov + 1j * reader.read_array(cov_shape, ext='cov_im')
+
+    def _reset_corr(self):
+        # The C++ layer writes directly into these arrays, so they need to be contiguous arrays
+        # of doubles rather than views of the columns in some table.
+        for name in ('_xi1', '_xi2', '_xi3', '_xi4', 'meanr', 'meanlogr', 'weight', 'npairs'):
+            setattr(self, name, np.ascontiguousarray(getattr(self, name), dtype=float))
+        # And an existing C++ object would still be using the arrays we had before reading.
+        self._corr = None
 
     def _read_from_data(self, data, params):
         s = self.logr.shape
@@ -1822,6 +1843,7 @@ class Corr2(object):
         self.npairs = data['npairs'].reshape(s)
         self.coords = params['coords'].strip()
         self.metric = params['metric'].strip()
+        self._var_num = params.get('var_num', 0)
         self.npatch1 = params.get('npatch1', 1)
         self.npatch2 = params.get('npatch2', 1)
 
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 27e503b..864eb4d 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2481,6 +2481,8 @@ class Corr3(object):
         params['coords'] = self.coords
         params['metric'] = self.metric
         params['corr'] = self._letters
+        # And the numerator of the shot-noise variance.
+        params['var_num'] = float(getattr(self, '_var_num', 0))
         return params
 
     def _write(self, writer, name, write_patch_results, write_cov=False, zero_tot=False):
@@ -2497,7 +2499,6 @@ class Corr3(object):
             params['npatch1'] = self.npatch1
             params['npatch2'] = self.npatch2
             params['npatch3'] = self.npatch3
-            params['num_rows'] = self._nbins
             num_patch_tri = len(self.results)
             if zero_tot:
                 i = 0
@@ -2511,6 +2512,10 @@ class Corr3(object):
             params['num_patch_tri'] = num_patch_tri
         if write_cov:
             params['cov_shape'] = self.cov.shape
+            params['cov_complex'] = np.iscomplexobj(self.cov)
+        if write_patch_results or write_cov:
+            # More data follow these in the same file, so the reader needs to know where to stop.
+            params['num_rows'] = self._nbins
 
         writer.write(col_names, data, params=params, ext=name)
         if write_patch_results:
@@ -2527,9 +2532,12 @@ class Corr3(object):
                 i += 1
             assert i == num_patch_tri
         if write_cov:
-            writer.write_array(self.cov, ext='cov')
+            writer.write_array(self.cov.real, ext='cov')
+            if np.iscomplexobj(self.cov):
+                writer.write_array(self.cov.imag, ext='cov_im')
 
     def _read(self, reader, name=None, params=None):
+        self.clear()  # Don't keep anything from what might have been here before.
         name = 'main' if 'main' in reader and name is None else name
         if params is None:
             params = reader.read_params(ext=name)
@@ -2537,12 +2545,14 @@ class Corr3(object):
         num_patch_tri = params.get('num_patch_tri', 0)
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
+        cov_complex = params.get('cov_complex', False)
         name = 'main' if num_patch_tri and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
         # This helper function defines how to set the attributes for each class
         # based on what was read in.
         self._read_from_data(data, params)
+        self._reset_corr()
 
         self.results = {}
         for i in range(num_zero_patch):
@@ -2552,6 +2562,7 @@ class Corr3(object):
         for i in range(num_patch_tri):
             pp_name = name + '_pp_%d'%i
             corr = self.copy()
+            corr.clear()
             params = reader.read_params(ext=pp_name)
             data = reader.read_data(max_rows=num_rows, ext=pp_name)
             corr._read_from_data(data, params)
@@ -2561,6 +2572,18 @@ class Corr3(object):
             if isinstance(cov_shape, str):
                 cov_shape = eval(cov_shape)
             self._cov = reader.read_array(cov_shape, ext='cov')
+            if cov_complex:
+                self._cov = self._cov + 1j * reader.read_array(cov_shape, ext='cov_im')
+
+    def _reset_corr(self):
+        # The C++ layer writes directly into these arrays, so they need to be contiguous arrays
+        # of doubles rather than views of the columns in some table.
+        for name in ('_z1', '_z2', '_z3', '_z4', '_z5', '_z6', '_z7', '_z8',
+                     'meand1', 'meanlogd1', 'meand2', 'meanlogd2', 'meand3', 'meanlogd3',
+                     'meanu', 'meanv', 'weightr', 'weighti', 'ntri'):
+            setattr(self, name, np.ascontiguousarray(getattr(self, name), dtype=float))
+        # And an existing C++ object would still be using the arrays we had before reading.
+        self._corr = None
 
     def _read_from_data(self, data, params):
         s = self.data_shape
@@ -2586,6 +2609,7 @@ class Corr3(object):
         self.ntri = data['ntri'].reshape(s)
         self.coords = params['coords'].strip()
         self.metric = params['metric'].strip()
+        self._var_num = params.get('var_num', 0)
         self.npatch1 = params.get('npatch1', 1)
         self.npatch2 = params.get('npatch2', 1)
         self.npatch3 = params.get('npatch3', 1)
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index b1bf3cb..c90b735 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -734,6 +734,7 @@ class NNCorrelation(Corr2):
             rr = self.copy()
             rr._read(reader, name='_rr')
             self._rr = rr
+            self._rr_weight = rr.weight * (self.tot / rr.tot)
         if self._dr:
             dr = self.copy()
             dr._read(reader, name='_dr')
@@ -751,6 +752,8 @@ class NNCorrelation(Corr2):
         if 'xi' in data.dtype.names:
             self.xi = data['xi'].reshape(s)
             self.varxi = data['sigma_xi'].reshape(s)**2
+        if 'RR' in data.dtype.names:
+            self._rr_weight = data['RR'].reshape(s)
         # Note: "or None" turns False -> None
         self._rr = params.get('_rr', None) or None
         self._dr = params.get('_dr', None) or None
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index d45cb71..81c0806 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -968,6 +968,7 @@ class NNNCorrelation(Corr3):
             rrr = self.copy()
             rrr._read(reader, name='_rrr')
             self._rrr = rrr
+            self._rrr_weight = np.abs(rrr.weight) * (self.tot / rrr.tot)
         if self._drr:
             drr = self.copy()
             drr._read(reader, name='_drr')
@@ -985,6 +986,8 @@ class NNNCorrelation(Corr3):
             self.varzeta = data['sigma_zeta'].reshape(s)**2
         if self.bin_type != 'LogMultipole':
             self.weightr = data['DDD'].reshape(s)
+        if 'RRR' in data.dtype.names:
+            self._rrr_weight = np.abs(data['RRR'].reshape(s))
         self.tot = params['tot']
         # Note: "or None" turns False -> None
         self._rrr = params.get('_rrr', None) or None
diff --git a/treecorr/reader.py b/treecorr/reader.py
index f09c0b0..e1c0f75 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -192,8 +192,8 @@ class AsciiReader(object):
             array
         """
         data = np.genfromtxt(self.file, max_rows=shape[0])
-        assert data.shape == shape
-        return data
+        # genfromtxt drops any dimensions with length 1.
+        return data.reshape(shape)
 
     def row_count(self, col=None, *, ext=None):
         """Count the number of rows in the file.
-- 
2.43.0


From d14895feed389dca2878f4ba5490f04532bd7919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 37/47] fix: patches close across a periodic boundary or near
 the origin in 3d were skipped

---
 treecorr/corr2base.py | 26 ++++++++++++++++++--------
 treecorr/corr3base.py |  9 +++++----
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 497e739..c15f7b1 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -736,13 +736,24 @@ class Corr2(object):
         return self.corr.triviallyZero(self._metric, self._coords,
                                        x1, y1, z1, s1, x2, y2, z2, s2)
 
+    def _center_dist(self, dx, dy, dz):
+        # The distance from the center of some patch, wrapping around if appropriate.
+        if self.metric == 'Periodic':
+            dx = dx - self.xperiod * np.round(dx / self.xperiod)
+            dy = dy - self.yperiod * np.round(dy / self.yperiod)
+            if self._coords == _treecorr.ThreeD:
+                dz = dz - self.zperiod * np.round(dz / self.zperiod)
+        return np.sqrt(dx**2 + dy**2 + dz**2)
+
     def _make_expanded_patch(self, cat1, cat2, metric, low_mem):
         # First figure out the center and size of cat1.
         x1,y1,z1,s1 = cat1._get_center_size()
 
-        if self._coords == _treecorr.ThreeD:
-            # For 3d coords, we collapse everything onto the unit circle, since that's
-            # what we care about for patch considerations.
+        # For most metrics in 3d, we collapse everything onto the unit sphere, since that's
+        # what we care about for patch considerations.  But not if it is just the 3d separation.
+        collapse = (self._coords == _treecorr.ThreeD and
+                    self.metric not in ['Euclidean', 'Periodic'])
+        if collapse:
             r = np.sqrt(x1**2 + y1**2 + z1**2)
             if r != 0:  # pragma: no branch
                 x1 /= r; y1 /= r; z1 /= r
@@ -758,22 +769,21 @@ class Corr2(object):
         for p in cat2:
             sumw += p.sumw
             x2,y2,z2,s2 = p._get_center_size()
-            if self._coords == _treecorr.ThreeD:
+            if collapse:
                 r = np.sqrt(x2**2 + y2**2 + z2**2)
                 if r != 0:
                     x2 /= r; y2 /= r; z2 /= r
-            if ((x2-x1)**2 + (y2-y1)**2 + (z2-z1)**2)**0.5 > max_sep + s1 + s2:
+            if self._center_dist(x2-x1, y2-y1, z2-z1) > max_sep + s1 + s2:
                 if low_mem and p is not cat1:
                     p.unload()
                 continue
             px = p.x; py = p.y; pz = 0 if p.z is None else p.z
-            if self._coords == _treecorr.ThreeD:
+            if collapse:
                 pr = np.sqrt(px**2 + py**2 + pz**2)
                 pr[pr==0] = 1
                 # Don't divide in place.  That would change p's internals.
                 px = px/pr; py = py/pr; pz = pz/pr
-            dsq = (px-x1)**2 + (py-y1)**2 + (pz-z1)**2
-            d = np.sqrt(dsq)
+            d = self._center_dist(px-x1, py-y1, pz-z1)
             mask = np.where(d < s1+max_sep)
             if len(mask[0]) == 0:
                 if low_mem and p is not cat1:
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 864eb4d..ef11428 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1130,16 +1130,17 @@ class Corr3(object):
         pass
 
     def _trivially_zero(self, c1, c2, c3):
-        # For now, ignore the metric.  Just be conservative about how much space we need.
+        # For now, mostly ignore the metric.  Just be conservative about how much space we need.
         x1,y1,z1,s1 = c1._get_center_size()
         x2,y2,z2,s2 = c2._get_center_size()
         x3,y3,z3,s3 = c3._get_center_size()
-        d3 = ((x1-x2)**2 + (y1-y2)**2 + (z1-z2)**2)**0.5
-        d1 = ((x2-x3)**2 + (y2-y3)**2 + (z2-z3)**2)**0.5
-        d2 = ((x3-x1)**2 + (y3-y1)**2 + (z3-z1)**2)**0.5
+        d3 = self._center_dist(x1-x2, y1-y2, z1-z2)
+        d1 = self._center_dist(x2-x3, y2-y3, z2-z3)
+        d2 = self._center_dist(x3-x1, y3-y1, z3-z1)
         d3, d2, d1 = sorted([d1,d2,d3])
         return (d2 > s1 + s2 + s3 + 2*self._max_sep)  # The 2* is where we are being conservative.
 
+    _center_dist = Corr2._center_dist
     _make_expanded_patch = Corr2._make_expanded_patch
 
     def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write,
-- 
2.43.0


From 8b0031caecabe9999c52ecfc47fa2a6475221257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:25 +0000
Subject: [PATCH 38/47] fix: catalogs from files or with odd inputs: flips of
 absent fields, NaN with wpos, mixed col/eval fields, patch_eval ignored,
 single-patch row ranges, lengths of flag and ra/dec unchecked, larger npatch
 dropped

---
 treecorr/catalog.py | 96 +++++++++++++++++++++++++++------------------
 treecorr/reader.py  |  2 +-
 2 files changed, 58 insertions(+), 40 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 22b5da0..e0dd864 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -825,19 +825,18 @@ class Catalog(object):
         if self.every_nth < 1:
             raise ValueError("every_nth should be >= 1")
 
-        try:
+        if patch is not None and np.ndim(patch) == 0:
             self._single_patch = int(patch)
-        except TypeError:
-            pass
-        else:
             patch = None
 
         if patch_centers is None and 'patch_centers' in self.config:
             # file name version may be in a config dict, rather than kwarg.
             patch_centers = get(self.config,'patch_centers',str)
 
+        has_patch_col = (self.config.get('patch_col',0) not in (0,'0')
+                         or self.config.get('patch_eval') is not None)
         if patch_centers is not None:
-            if patch is not None or self.config.get('patch_col',0) not in (0,'0'):
+            if patch is not None or has_patch_col:
                 raise ValueError("Cannot provide both patch and patch_centers")
             if isinstance(patch_centers, np.ndarray):
                 self._centers = patch_centers
@@ -850,7 +849,7 @@ class Catalog(object):
             self._npatch = get(self.config,'npatch',int)
             if self._npatch < 1:
                 raise ValueError("npatch must be >= 1")
-        elif self.config.get('patch_col',0) not in (0,'0'):
+        elif has_patch_col:
             self._npatch = None  # Mark that we need to finish loading to figure out npatch.
         elif self._single_patch:
             raise ValueError("Either npatch or patch_centers is required when providing "
@@ -966,6 +965,10 @@ class Catalog(object):
                 ntot = len(self._ra)
                 if len(self._dec) != ntot:
                     raise ValueError("ra and dec have different numbers of elements")
+            if self._ra is not None and (len(self._ra) != ntot or len(self._dec) != ntot):
+                raise ValueError("ra and dec have the wrong numbers of elements")
+            if self._flag is not None and len(self._flag) != ntot:
+                raise ValueError("flag has the wrong numbers of elements")
             if self._z is not None and len(self._z) != ntot:
                 raise ValueError("z has the wrong numbers of elements")
             if self._r is not None and len(self._r) != ntot:
@@ -1309,46 +1312,46 @@ class Catalog(object):
         # Apply flips if requested
         flip_z1 = get_from_list(self.config,'flip_z1',self._num,bool,False)
         flip_z2 = get_from_list(self.config,'flip_z2',self._num,bool,False)
-        if flip_z1:
+        if flip_z1 and self._z1 is not None:
             self.logger.info("   Flipping sign of z1.")
             self._z1 = -self._z1
-        if flip_z2:
+        if flip_z2 and self._z2 is not None:
             self.logger.info("   Flipping sign of z2.")
             self._z2 = -self._z2
 
         flip_v1 = get_from_list(self.config,'flip_v1',self._num,bool,False)
         flip_v2 = get_from_list(self.config,'flip_v2',self._num,bool,False)
-        if flip_v1:
+        if flip_v1 and self._v1 is not None:
             self.logger.info("   Flipping sign of v1.")
             self._v1 = -self._v1
-        if flip_v2:
+        if flip_v2 and self._v2 is not None:
             self.logger.info("   Flipping sign of v2.")
             self._v2 = -self._v2
 
         flip_g1 = get_from_list(self.config,'flip_g1',self._num,bool,False)
         flip_g2 = get_from_list(self.config,'flip_g2',self._num,bool,False)
-        if flip_g1:
+        if flip_g1 and self._g1 is not None:
             self.logger.info("   Flipping sign of g1.")
             self._g1 = -self._g1
-        if flip_g2:
+        if flip_g2 and self._g2 is not None:
             self.logger.info("   Flipping sign of g2.")
             self._g2 = -self._g2
 
         flip_t1 = get_from_list(self.config,'flip_t1',self._num,bool,False)
         flip_t2 = get_from_list(self.config,'flip_t2',self._num,bool,False)
-        if flip_t1:
+        if flip_t1 and self._t1 is not None:
             self.logger.info("   Flipping sign of t1.")
             self._t1 = -self._t1
-        if flip_t2:
+        if flip_t2 and self._t2 is not None:
             self.logger.info("   Flipping sign of t2.")
             self._t2 = -self._t2
 
         flip_q1 = get_from_list(self.config,'flip_q1',self._num,bool,False)
         flip_q2 = get_from_list(self.config,'flip_q2',self._num,bool,False)
-        if flip_q1:
+        if flip_q1 and self._q1 is not None:
             self.logger.info("   Flipping sign of q1.")
             self._q1 = -self._q1
-        if flip_q2:
+        if flip_q2 and self._q2 is not None:
             self.logger.info("   Flipping sign of q2.")
             self._q2 = -self._q2
 
@@ -1533,8 +1536,8 @@ class Catalog(object):
         if self._npatch not in [None, 1] and npatch > self._npatch:
             # Note: it's permissible for self._npatch to be larger, but not smaller.
             raise ValueError("npatch is incompatible with provided patch numbers")
-        self._npatch = npatch
-        self.logger.info("Assigned patch numbers 0..%d",self._npatch-1)
+        self._npatch = npatch if self._npatch is None else max(npatch, self._npatch)
+        self.logger.info("Assigned patch numbers 0..%d",npatch-1)
 
     def _get_patch_index(self, single_patch):
         if self._patch is not None:
@@ -1663,6 +1666,8 @@ class Catalog(object):
             if self._w is None:
                 self._w = np.ones_like(col, dtype=float)
             self._w[index] = 0
+            if self._wpos is not None:
+                self._wpos[index] = 0
             col[index] = 0  # Don't leave the nans there.
 
     def _check_file(self, file_name, reader, num=0, is_rand=False):
@@ -1758,19 +1763,19 @@ class Catalog(object):
             raise ValueError("q2_col is missing for file %s"%file_name)
 
         # Either both shoudl be 0 or both != 0.
-        if (z1_col == '0' and z1_eval is None) != (z2_col == '0' and z1_eval is None):
+        if (z1_col == '0' and z1_eval is None) != (z2_col == '0' and z2_eval is None):
             raise ValueError("z1_col, z2_col=(%s, %s) are invalid for file %s"%(
                         z1_col,z2_col,file_name))
-        if (v1_col == '0' and v1_eval is None) != (v2_col == '0' and v1_eval is None):
+        if (v1_col == '0' and v1_eval is None) != (v2_col == '0' and v2_eval is None):
             raise ValueError("v1_col, v2_col=(%s, %s) are invalid for file %s"%(
                         v1_col,v2_col,file_name))
-        if (g1_col == '0' and g1_eval is None) != (g2_col == '0' and g1_eval is None):
+        if (g1_col == '0' and g1_eval is None) != (g2_col == '0' and g2_eval is None):
             raise ValueError("g1_col, g2_col=(%s, %s) are invalid for file %s"%(
                         g1_col,g2_col,file_name))
-        if (t1_col == '0' and t1_eval is None) != (t2_col == '0' and t1_eval is None):
+        if (t1_col == '0' and t1_eval is None) != (t2_col == '0' and t2_eval is None):
             raise ValueError("t1_col, t2_col=(%s, %s) are invalid for file %s"%(
                         t1_col,t2_col,file_name))
-        if (q1_col == '0' and q1_eval is None) != (q2_col == '0' and q1_eval is None):
+        if (q1_col == '0' and q1_eval is None) != (q2_col == '0' and q2_eval is None):
             raise ValueError("q1_col, q2_col=(%s, %s) are invalid for file %s"%(
                         q1_col,q2_col,file_name))
 
@@ -1842,7 +1847,7 @@ class Catalog(object):
                                 k_col, file_name, num) +
                             "because it is invalid, but unneeded.")
 
-            if z1_col != '0':
+            if z1_col != '0' and z2_col != '0':
                 z1_ext = get_from_list(self.config, 'z1_ext', num, str, ext)
                 z2_ext = get_from_list(self.config, 'z2_ext', num, str, ext)
                 if (z1_col not in reader.names(ext=z1_ext) or
@@ -1857,7 +1862,7 @@ class Catalog(object):
                                 z1_col, z2_col, file_name, num) +
                             "because they are invalid, but unneeded.")
 
-            if v1_col != '0':
+            if v1_col != '0' and v2_col != '0':
                 v1_ext = get_from_list(self.config, 'v1_ext', num, str, ext)
                 v2_ext = get_from_list(self.config, 'v2_ext', num, str, ext)
                 if (v1_col not in reader.names(ext=v1_ext) or
@@ -1872,7 +1877,7 @@ class Catalog(object):
                                 v1_col, v2_col, file_name, num) +
                             "because they are invalid, but unneeded.")
 
-            if g1_col != '0':
+            if g1_col != '0' and g2_col != '0':
                 g1_ext = get_from_list(self.config, 'g1_ext', num, str, ext)
                 g2_ext = get_from_list(self.config, 'g2_ext', num, str, ext)
                 if (g1_col not in reader.names(ext=g1_ext) or
@@ -1887,7 +1892,7 @@ class Catalog(object):
                                 g1_col, g2_col, file_name, num) +
                             "because they are invalid, but unneeded.")
 
-            if t1_col != '0':
+            if t1_col != '0' and t2_col != '0':
                 t1_ext = get_from_list(self.config, 't1_ext', num, str, ext)
                 t2_ext = get_from_list(self.config, 't2_ext', num, str, ext)
                 if (t1_col not in reader.names(ext=t1_ext) or
@@ -1902,7 +1907,7 @@ class Catalog(object):
                                 t1_col, t2_col, file_name, num) +
                             "because they are invalid, but unneeded.")
 
-            if q1_col != '0':
+            if q1_col != '0' and q2_col != '0':
                 q1_ext = get_from_list(self.config, 'q1_ext', num, str, ext)
                 q2_ext = get_from_list(self.config, 'q2_ext', num, str, ext)
                 if (q1_col not in reader.names(ext=q1_ext) or
@@ -1935,7 +1940,7 @@ class Catalog(object):
                 exec('import ' + mod, gdict)
             gdict['data'] = data
             for k in data:
-                if k in s:
+                if k in s and k.isidentifier():
                     exec(f"{k} = data['{k}']", gdict)
             return eval(s, gdict)
 
@@ -1970,9 +1975,9 @@ class Catalog(object):
                     self.logger.debug('read r')
                 self._apply_radec_units()
 
-        def set_patch(data, patch_col):
-            if patch_col != '0' and patch_col in data:
-                self._patch = data[patch_col].astype(int)
+        def set_patch(data, patch_col, patch_eval):
+            if patch_eval is not None or (patch_col != '0' and patch_col in data):
+                self._patch = parse_value(data, patch_col, patch_eval, int)
                 self.logger.debug('read patch')
                 self._set_npatch()
 
@@ -2019,6 +2024,7 @@ class Catalog(object):
         t2_eval = get_from_list(self.config,'t2_eval',num,str,None)
         q1_eval = get_from_list(self.config,'q1_eval',num,str,None)
         q2_eval = get_from_list(self.config,'q2_eval',num,str,None)
+        patch_eval = get_from_list(self.config,'patch_eval',num,str,None)
         extra_cols = get(self.config,'extra_cols',list,[])
 
         with reader:
@@ -2079,10 +2085,22 @@ class Catalog(object):
             data = {}
             # Also, if we are only reading in one patch, we should adjust s before doing this.
             if self._single_patch is not None:
-                if patch_col != '0':
+                if patch_eval is not None:
+                    for ext in all_exts:
+                        use_cols1 = [c for c in all_cols
+                                     if col_by_ext[c] == ext and c in reader.names(ext=ext)]
+                        use_cols1 += [c for c in extra_cols if c in reader.names(ext=ext)]
+                        if len(use_cols1) == 0:
+                            continue
+                        data1 = reader.read(use_cols1, s, ext=ext)
+                        for c in use_cols1:
+                            data[c] = data1[c]
+                    set_patch(data, patch_col, patch_eval)
+                    patch_eval = None
+                elif patch_col != '0':
                     data[patch_col] = reader.read(patch_col, s, ext=patch_ext)
                     all_cols.remove(patch_col)
-                    set_patch(data, patch_col)
+                    set_patch(data, patch_col, patch_eval)
                 elif self._centers is not None:
                     pos_cols = [x_col, y_col, z_col, ra_col, dec_col, r_col]
                     pos_cols = [c for c in pos_cols if c != '0']
@@ -2102,15 +2120,15 @@ class Catalog(object):
                 self.select(use)
                 if s == slice(None):
                     s = use
-                else:
-                    end1 = np.max(use)*s.step+s.start+1
-                    s = np.arange(s.start, end1, s.step)[use]
+                elif isinstance(use, np.ndarray):
+                    s = use*s.step + s.start
                 self._patch = None
                 data = {}  # Start fresh, since the ones we used so far are done.
 
                 # We might actually be done now, in which case, just return.
                 # (Else the fits read below won't actually work.)
-                if len(all_cols) == 0 or (isinstance(s,np.ndarray) and len(s) == 0):
+                if ((len(all_cols) == 0 and len(extra_cols) == 0) or
+                        (isinstance(s,np.ndarray) and len(s) == 0)):
                     return
 
             # Now read the rest using the updated s
@@ -2129,7 +2147,7 @@ class Catalog(object):
                     x_eval, y_eval, z_eval, ra_eval, dec_eval, r_eval)
 
             # Set patch
-            set_patch(data, patch_col)
+            set_patch(data, patch_col, patch_eval)
 
             # Set w
             if w_col != '0' or w_eval is not None:
diff --git a/treecorr/reader.py b/treecorr/reader.py
index e1c0f75..b062319 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -121,7 +121,7 @@ class AsciiReader(object):
 
         # If only one column, then the shape comes in as one-d.  Reshape it:
         if len(icols) == 1:
-            data = data.reshape(len(data),1)
+            data = data.reshape(-1,1)
 
         # If only one row, then the shape comes in as one-d.  Reshape it:
         if len(data.shape) == 1:
-- 
2.43.0


From e2c8a26d6ae74f905ad68d22dab846f9e9ce78bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:46 +0000
Subject: [PATCH 39/47] fix: keep derived state of Catalog consistent in
 select, unload, write_patches and read_patches

- select() left nobj, sumw, variances, patches, centers, flags and cached
  fields of the full catalog in place.
- write_patches/read_patches used the position in the list rather than the
  patch number for the file name, removed files that the existing patches
  still had to be read from, changed the units of the catalog, and lost
  x/y units, weights that only come from flags, eval columns, list-valued
  config items and keep_zero_weight.
---
 treecorr/catalog.py | 97 ++++++++++++++++++++++++++++++---------------
 1 file changed, 65 insertions(+), 32 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index e0dd864..6f3aa3f 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1256,7 +1256,7 @@ class Catalog(object):
     def nobj(self):
         if self._nobj is None:
             if self.nontrivial_w:
-                use = self._w != 0
+                use = self.w != 0
                 self._nobj = np.sum(use)
             else:
                 self._nobj = self.ntot
@@ -1624,6 +1624,20 @@ class Catalog(object):
         self._q1 = self._q1[indx] if self._q1 is not None else None
         self._q2 = self._q2[indx] if self._q2 is not None else None
         self._patch = self._patch[indx] if self._patch is not None else None
+        self._flag = self._flag[indx] if self._flag is not None else None
+
+        # Anything already calculated from the full set of objects is not valid anymore.
+        self._nobj = None
+        self._sumw2 = None
+        if self._w is not None and self._sumw is not None:
+            self._sumw = np.sum(self._w) if self._nontrivial_w else len(self._w)
+        for var in ['vark', 'varz', 'varv', 'varg', 'vart', 'varq']:
+            if self.config.get(var, None) is None:
+                setattr(self, '_' + var, None)
+        self._patches = None
+        self._computed_centers = None
+        self.__dict__.pop('_cen_s', None)
+        self.clear_cache()
 
     def makeArray(self, col, col_str, dtype=float):
         """Turn the input column into a numpy array if it wasn't already.
@@ -2109,6 +2123,8 @@ class Catalog(object):
                     for ext in all_exts:
                         use_cols1 = [c for c in pos_cols if col_by_ext[c] == ext]
                         use_cols1 += [c for c in extra_cols if c in reader.names(ext=ext)]
+                        if len(use_cols1) == 0:
+                            continue
                         data1 = reader.read(use_cols1, s, ext=ext)
                         for c in use_cols1:
                             data[c] = data1[c]
@@ -2796,6 +2812,7 @@ class Catalog(object):
             self._r = None
             self._w = None
             self._wpos = None
+            self._flag = None
             self._k = None
             self._z1 = None
             self._z2 = None
@@ -2847,17 +2864,37 @@ class Catalog(object):
             raise ValueError("save_patch_dir is required here, since not given in constructor.")
 
         file_names = self.get_patch_file_names(save_patch_dir)
+        if self._patches is not None:
+            # If the existing patches are going to be read from (some of) these files, do so now.
+            for p in self._patches:
+                if p.file_name in file_names:
+                    p.load()
         # This next bit looks gratuitous, but without it, it's possible for self.patches to
         # end up reading the existing files rather than build the patches and overwrite them.
         for file_name in file_names:
             if os.path.exists(file_name):
                 os.remove(file_name)
-        for i, p, file_name in zip(range(self.npatch), self.patches, file_names):
+        patches = self.patches
+        if any([p.nontrivial_w for p in patches]):
+            # Write a w column for all of the patches if any of them need it.
+            self._nontrivial_w = True
+            for p in patches:
+                p._nontrivial_w = True
+        for p in patches:
+            # Note: Patch numbers without any objects may be missing from patches.
+            i = p._single_patch if p._single_patch is not None else 0
+            file_name = file_names[i]
             self.logger.info('Writing patch %d to %s',i,file_name)
-            if p.ra is not None:
-                # Don't multiply and divide by the units on round trip.
-                p.ra_units = p.dec_units = 1
+            p.load()
+            # Don't multiply and divide by the units on round trip.
+            # But put them back afterwards, since p may be self or be written again by the user.
+            names = ('ra_units', 'dec_units') if p.ra is not None else ('x_units', 'y_units')
+            units = [getattr(p, name) for name in names]
+            for name in names:
+                setattr(p, name, 1.)
             p.write(file_name)
+            for name, unit in zip(names, units):
+                setattr(p, name, unit)
 
     def read_patches(self, save_patch_dir=None):
         """Read the patches from files on disk.
@@ -2886,45 +2923,34 @@ class Catalog(object):
         # This would be easier if we just checked e.g. if self.ra is not None, etc.
         # But that would trigger an unnecessary load if we aren't loaded yet.
         # So do all this with the underscore attributes.
+        def has(name):
+            return (getattr(self, '_'+name) is not None or
+                    get_from_list(self.config, name+'_col', self._num, str, '0') != '0' or
+                    get_from_list(self.config, name+'_eval', self._num, str, None) is not None)
+
         kwargs = {}
-        if self._ra is not None or self.config.get('ra_col','0') != '0':
+        if has('ra'):
             kwargs['ra_col'] = 'ra'
             kwargs['dec_col'] = 'dec'
             kwargs['ra_units'] = 'rad'
             kwargs['dec_units'] = 'rad'
-            if self._r is not None or self.config.get('r_col','0') != '0':
+            if has('r'):
                 kwargs['r_col'] = 'r'
         else:
             kwargs['x_col'] = 'x'
             kwargs['y_col'] = 'y'
-            if self._z is not None or self.config.get('z_col','0') != '0':
+            if has('z'):
                 kwargs['z_col'] = 'z'
-        if (self._w is not None and self._nontrivial_w)  or self.config.get('w_col','0') != '0':
+        if self._nontrivial_w or (self._w is None and has('w')):
             kwargs['w_col'] = 'w'
-        if self._wpos is not None or self.config.get('wpos_col','0') != '0':
+        if get(self.config,'keep_zero_weight',bool,False):
+            kwargs['keep_zero_weight'] = True
+        if has('wpos'):
             kwargs['wpos_col'] = 'wpos'
-        if self._k is not None or self.config.get('k_col','0') != '0':
-            kwargs['k_col'] = 'k'
-        if self._z1 is not None or self.config.get('z1_col','0') != '0':
-            kwargs['z1_col'] = 'z1'
-        if self._z2 is not None or self.config.get('z2_col','0') != '0':
-            kwargs['z2_col'] = 'z2'
-        if self._v1 is not None or self.config.get('v1_col','0') != '0':
-            kwargs['v1_col'] = 'v1'
-        if self._v2 is not None or self.config.get('v2_col','0') != '0':
-            kwargs['v2_col'] = 'v2'
-        if self._g1 is not None or self.config.get('g1_col','0') != '0':
-            kwargs['g1_col'] = 'g1'
-        if self._g2 is not None or self.config.get('g2_col','0') != '0':
-            kwargs['g2_col'] = 'g2'
-        if self._t1 is not None or self.config.get('t1_col','0') != '0':
-            kwargs['t1_col'] = 't1'
-        if self._t2 is not None or self.config.get('t2_col','0') != '0':
-            kwargs['t2_col'] = 't2'
-        if self._q1 is not None or self.config.get('q1_col','0') != '0':
-            kwargs['q1_col'] = 'q1'
-        if self._q2 is not None or self.config.get('q2_col','0') != '0':
-            kwargs['q2_col'] = 'q2'
+        for name in ['k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2', 't1', 't2', 'q1', 'q2']:
+            # Randoms don't have any of these, even if they are in the config dict.
+            if getattr(self, '_'+name) is not None or (not self._is_rand and has(name)):
+                kwargs[name+'_col'] = name
 
         file_names = self.get_patch_file_names(save_patch_dir)
         self._patches = []
@@ -2932,6 +2958,12 @@ class Catalog(object):
         for i, file_name in zip(range(self.npatch), file_names):
             if not os.path.isfile(file_name):
                 raise OSError("Patch file %s not found"%file_name)
+        if self._nontrivial_w is None and 'keep_zero_weight' in kwargs and 'w_col' not in kwargs:
+            # Without loading the data, we don't know whether any objects have w=0 because of
+            # flags or NaNs.  But if so, then all the patch files have a w column.
+            with make_reader(file_names[0], logger=self.logger) as reader:
+                if 'w' in reader.names():
+                    kwargs['w_col'] = 'w'
         self._patches = [Catalog(file_name=name, patch=i, npatch=self.npatch, **kwargs)
                          for i, name in enumerate(file_names)]
         self.logger.info('Patches created from files %s .. %s',file_names[0],file_names[-1])
@@ -2977,6 +3009,7 @@ class Catalog(object):
                 # This triggers a load of the current catalog, but no choice here.
                 patch_set = sorted(set(self.patch))
             self._patches = [Catalog(config=self.config, file_name=self.file_name,
+                                     num=self._num, is_rand=self._is_rand,
                                      patch=i, npatch=self.npatch, patch_centers=self._centers)
                              for i in patch_set]
         else:
-- 
2.43.0


From 75bbabef332b7631c9690c12129aea25ab62afb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:46 +0000
Subject: [PATCH 40/47] fix: make SelectPatch and QuickAssign agree about the
 nearest center

Objects nearly equidistant from two centers could be in both or neither of
the patches when reading one patch at a time, because the two functions
rounded the distances differently.
---
 src/KMeans.cpp | 118 ++++++++++++++-----------------------------------
 1 file changed, 32 insertions(+), 86 deletions(-)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index 92ca941..45edba7 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -915,6 +915,30 @@ void KMeansAssign(BaseField<C>& field, py::array_t<double>& cenp, int npatch,
     KMeansAssign1(field, centers, npatch, patches, n);
 }
 
+// Find which center is nearest to (x,y) or (x,y,z), according to D = 2 or 3.
+// Note: This is intentionally not inlined, so QuickAssign and SelectPatch use precisely the same
+// calculation.  Otherwise, rounding differences could lead them to disagree about objects that
+// are (nearly) equidistant from two centers.
+template <int D>
+#ifdef __GNUC__
+__attribute__ ((noinline))
+#endif
+static long NearestCenter(const double* centers, long npatch, double x, double y, double z)
+{
+    long kmin = 0;
+    double min_rsq = SQR(x-centers[0]) + SQR(y-centers[1]);
+    if (D == 3) min_rsq += SQR(z-centers[2]);
+    for (long k=1; k<npatch; ++k) {
+        double rsq = SQR(x-centers[D*k]) + SQR(y-centers[D*k+1]);
+        if (D == 3) rsq += SQR(z-centers[D*k+2]);
+        if (rsq < min_rsq) {
+            kmin = k;
+            min_rsq = rsq;
+        }
+    }
+    return kmin;
+}
+
 void QuickAssign(py::array_t<double>& cenp, int npatch,
                  py::array_t<double>& xp, py::array_t<double>& yp,
                  py::array_t<double>& zp, py::array_t<long>& pp)
@@ -931,39 +955,20 @@ void QuickAssign(py::array_t<double>& cenp, int npatch,
 
     if (zp.size() > 0) {
         Assert(cenp.size() == npatch * 3);
-        long npatch = cenp.size() / 3;
         const double* z = static_cast<const double*>(zp.data());
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
-        for (int i=0; i<n; ++i) {
-            int kmin = 0;
-            double min_rsq = SQR(x[i]-centers[0]) + SQR(y[i]-centers[1]) + SQR(z[i]-centers[2]);
-            for (int k=1; k<npatch; ++k) {
-                double rsq = SQR(x[i]-centers[3*k]) + SQR(y[i]-centers[3*k+1]) + SQR(z[i]-centers[3*k+2]);
-                if (rsq < min_rsq) {
-                    kmin = k;
-                    min_rsq = rsq;
-                }
-            }
-            patches[i] = kmin;
+        for (long i=0; i<n; ++i) {
+            patches[i] = NearestCenter<3>(centers, npatch, x[i], y[i], z[i]);
         }
     } else {
         Assert(cenp.size() == npatch * 2);
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
-        for (int i=0; i<n; ++i) {
-            int kmin = 0;
-            double min_rsq = SQR(x[i]-centers[0]) + SQR(y[i]-centers[1]);
-            for (int k=1; k<npatch; ++k) {
-                double rsq = SQR(x[i]-centers[2*k]) + SQR(y[i]-centers[2*k+1]);
-                if (rsq < min_rsq) {
-                    kmin = k;
-                    min_rsq = rsq;
-                }
-            }
-            patches[i] = kmin;
+        for (long i=0; i<n; ++i) {
+            patches[i] = NearestCenter<2>(centers, npatch, x[i], y[i], 0.);
         }
     }
 }
@@ -972,71 +977,12 @@ void SelectPatch(int patch, py::array_t<double>& cenp, int npatch,
                  py::array_t<double>& xp, py::array_t<double>& yp,
                  py::array_t<double>& zp, py::array_t<long>& usep)
 {
-    long n = xp.size();
-    Assert(yp.size() == n);
-    Assert(zp.size() == n || zp.size() == 0);
-    Assert(usep.size() == n);
     Assert(patch < npatch);
-
-    const double* centers = static_cast<const double*>(cenp.data());
-    const double* x = static_cast<const double*>(xp.data());
-    const double* y = static_cast<const double*>(yp.data());
+    // Assign all the patch numbers, and then use the ones assigned to the one we want.
+    QuickAssign(cenp, npatch, xp, yp, zp, usep);
+    long n = usep.size();
     long* use = static_cast<long*>(usep.mutable_data());
-
-    // Notation: p = the good patch we are looking for
-    //           q = other patches
-    //           if p is the closest, then use = 1, else use = 0.
-
-    if (zp.size() > 0) {
-        // 3d version
-        Assert(cenp.size() == npatch * 3);
-        double px = centers[3*patch];
-        double py = centers[3*patch+1];
-        double pz = centers[3*patch+2];
-        const double* z = static_cast<const double*>(zp.data());
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static)
-#endif
-        for (int i=0; i<n; ++i) {
-            double p_dsq = SQR(x[i]-px) + SQR(y[i]-py) + SQR(z[i]-pz);
-            use[i] = 1;
-            for (int q=0; q<npatch; ++q) {
-                if (q == patch) continue;
-                double qx = centers[3*q];
-                double qy = centers[3*q+1];
-                double qz = centers[3*q+2];
-                double q_dsq = SQR(x[i]-qx) + SQR(y[i]-qy) + SQR(z[i]-qz);
-                // Note: Ties go to the lower index to match QuickAssign.
-                if (q_dsq < p_dsq || (q_dsq == p_dsq && q < patch)) {
-                    use[i] = 0;
-                    break;
-                }
-            }
-        }
-    } else {
-        // 2d version
-        Assert(cenp.size() == npatch * 2);
-        double px = centers[2*patch];
-        double py = centers[2*patch+1];
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static)
-#endif
-        for (int i=0; i<n; ++i) {
-            double p_dsq = SQR(x[i]-px) + SQR(y[i]-py);
-            use[i] = 1;
-            for (int q=0; q<npatch; ++q) {
-                if (q == patch) continue;
-                double qx = centers[2*q];
-                double qy = centers[2*q+1];
-                double q_dsq = SQR(x[i]-qx) + SQR(y[i]-qy);
-                // Note: Ties go to the lower index to match QuickAssign.
-                if (q_dsq < p_dsq || (q_dsq == p_dsq && q < patch)) {
-                    use[i] = 0;
-                    break;
-                }
-            }
-        }
-    }
+    for (long i=0; i<n; ++i) use[i] = (use[i] == patch);
 }
 
 void GenerateXYZ(
-- 
2.43.0


From 1f40df92a26b35775ee78b27459435b7113b0e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:31 +0000
Subject: [PATCH 41/47] fix: derived binning parameters could give empty or
 negative ranges (max_sep <= min_sep, v below 0) without an error

---
 treecorr/corr2base.py |  3 +++
 treecorr/corr3base.py | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index c15f7b1..58a9fb9 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -447,6 +447,9 @@ class Corr2(object):
             max_good_slop = 0.1
         else:  # pragma: no cover  (Already checked by config layer)
             raise ValueError("Invalid bin_type %s"%self.bin_type)
+        # Check this again, since either one may have been calculated from nbins and bin_size.
+        if self.min_sep >= self.max_sep:
+            raise ValueError("max_sep must be larger than min_sep")
 
         if self.sep_units == '':
             self.logger.info("nbins = %d, min,max sep = %g..%g, bin_size = %g",
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index ef11428..9d5aacf 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -453,6 +453,9 @@ class Corr3(object):
             self._ro.nbins = int(self.config['nbins'])
             bin_size = self._ro.bin_size = float(self.config['bin_size'])
             self._ro.min_sep = self.max_sep*math.exp(-self.nbins*bin_size)
+        # Check this again, since either one may have been calculated from nbins and bin_size.
+        if self.min_sep >= self.max_sep:
+            raise ValueError("max_sep must be larger than min_sep")
         if self.sep_units == '':
             self.logger.info("r: nbins = %d, min,max sep = %g..%g, bin_size = %g",
                              self.nbins, self.min_sep, self.max_sep, self.bin_size)
@@ -491,6 +494,8 @@ class Corr3(object):
                         self._ro.min_u = max(self.max_u - self.nubins * self.ubin_size, 0.)
                     if 'max_u' not in self.config:
                         self._ro.max_u = min(self.min_u + self.nubins * self.ubin_size, 1.)
+            if self.min_u >= self.max_u:
+                raise ValueError("max_u must be larger than min_u")
             # Adjust ubin_size given the other values
             self._ro.ubin_size = (self.max_u-self.min_u)/self.nubins
             self.logger.info("u: nbins = %d, min,max = %g..%g, bin_size = %g",
@@ -514,7 +519,9 @@ class Corr3(object):
                     if 'max_v' not in self.config:
                         self._ro.max_v = min(self.min_v + self.nvbins * self.vbin_size, 1.)
                     else:  # min_v not in config
-                        self._ro.min_v = max(self.max_v - self.nvbins * self.vbin_size, -1.)
+                        self._ro.min_v = max(self.max_v - self.nvbins * self.vbin_size, 0.)
+            if self.min_v >= self.max_v:
+                raise ValueError("max_v must be larger than min_v")
             # Adjust vbin_size given the other values
             self._ro.vbin_size = (self.max_v-self.min_v)/self.nvbins
             self.logger.info("v: nbins = %d, min,max = %g..%g, bin_size = %g",
@@ -555,6 +562,8 @@ class Corr3(object):
                     else:  # min_phi not in config
                         self._ro.min_u = self.max_phi - self.nphi_bins * self.phi_bin_size
                         self._ro.min_u = max(self._ro.min_u, 0.)
+            if self.min_phi >= self.max_phi:
+                raise ValueError("max_phi must be larger than min_phi")
             # Adjust phi_bin_size given the other values
             self._ro.ubin_size = (self.max_phi-self.min_phi)/self.nphi_bins
             self._ro.min_v = self._ro.max_v = self._ro.nvbins = self._ro.vbin_size = 0
-- 
2.43.0


From 090ff55f5d0498bb58e1ab2d7b029741a0001064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:31 +0000
Subject: [PATCH 42/47] fix: calculateNMap and calculateNapSq refuse binnings
 they are not defined for; writeNorm accepts the documented rd

---
 treecorr/ngcorrelation.py | 11 +++++++++--
 treecorr/nncorrelation.py |  9 ++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/treecorr/ngcorrelation.py b/treecorr/ngcorrelation.py
index 38270b5..26344e3 100644
--- a/treecorr/ngcorrelation.py
+++ b/treecorr/ngcorrelation.py
@@ -229,6 +229,11 @@ class NGCorrelation(BaseNZCorrelation):
         In neither case is this formula in the above papers, but the derivation is similar
         to the derivations of :math:`T_+` and :math:`T_-` in Schneider et al. (2002).
 
+        .. note::
+
+            This function is only implemented for Log binning.
+
+
         Parameters:
             R (array):          The R values at which to calculate the aperture mass statistics.
                                 (default: None, which means use self.rnom)
@@ -249,6 +254,8 @@ class NGCorrelation(BaseNZCorrelation):
             m2_uform = self.config.get('m2_uform','Crittenden')
         if m2_uform not in ['Crittenden', 'Schneider']:
             raise ValueError("Invalid m2_uform")
+        if self.bin_type != 'Log':
+            raise ValueError("calculateNMap requires Log binning.")
         if R is None:
             R = self.rnom
 
@@ -330,7 +337,7 @@ class NGCorrelation(BaseNZCorrelation):
         with writer:
             writer.write(col_names, columns)
 
-    def writeNorm(self, file_name, *, gg, dd, rr, R=None, dr=None, rg=None,
+    def writeNorm(self, file_name, *, gg, dd, rr, R=None, dr=None, rd=None, rg=None,
                   m2_uform=None, file_type=None, precision=None):
         r"""Write the normalized aperture mass cross-correlation to the file, file_name.
 
@@ -396,7 +403,7 @@ class NGCorrelation(BaseNZCorrelation):
 
         nmap, nmx, varnmap = self.calculateNMap(R=R, rg=rg, m2_uform=m2_uform)
         mapsq, mapsq_im, mxsq, mxsq_im, varmapsq = gg.calculateMapSq(R=R, m2_uform=m2_uform)
-        nsq, varnsq = dd.calculateNapSq(R=R, rr=rr, dr=dr, m2_uform=m2_uform)
+        nsq, varnsq = dd.calculateNapSq(R=R, rr=rr, dr=dr, rd=rd, m2_uform=m2_uform)
 
         nmnorm = nmap**2 / (nsq * mapsq)
         varnmnorm = nmnorm**2 * (4. * varnmap / nmap**2 + varnsq / nsq**2 + varmapsq / mapsq**2)
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index c90b735..c1db0db 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -764,7 +764,7 @@ class NNCorrelation(Corr2):
 
         .. math::
 
-            \langle N_{ap}^2 \rangle(R) &= \int_{0}^{rmax} \frac{r dr}{2R^2}
+            \langle N_{ap}^2 \rangle(R) &= \int_{0}^{rmax} \frac{r dr}{R^2}
             \left [ T_+\left(\frac{r}{R}\right) \xi(r) \right] \\
 
         The ``m2_uform`` parameter sets which definition of the aperture mass to use.
@@ -794,6 +794,11 @@ class NNCorrelation(Corr2):
         This is used by `NGCorrelation.writeNorm`.  See that function and also
         `GGCorrelation.calculateMapSq` for more details.
 
+        .. note::
+
+            This function is only implemented for Log binning.
+
+
         Parameters:
             rr (NNCorrelation): The auto-correlation of the random field (RR)
             R (array):          The R values at which to calculate the aperture mass statistics.
@@ -815,6 +820,8 @@ class NNCorrelation(Corr2):
             m2_uform = self.config.get('m2_uform', 'Crittenden')
         if m2_uform not in ['Crittenden', 'Schneider']:
             raise ValueError("Invalid m2_uform")
+        if self.bin_type != 'Log':
+            raise ValueError("calculateNapSq requires Log binning.")
         if R is None:
             R = self.rnom
 
-- 
2.43.0


From c39dd989a771b66242ae670fd8b88c53c66b55fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:35 +0000
Subject: [PATCH 43/47] fix: configurations: parameters given as one value per
 catalog were refused or ignored (file_type, units, delimiter, comment_marker,
 allow_xyz, var*), lists were accepted where they mean nothing, and Norm
 without randoms failed obscurely

---
 treecorr/catalog.py    | 50 +++++++++++++++++++----------------
 treecorr/config.py     | 60 ++++++++++++++++++++++++++++--------------
 treecorr/exec_corr2.py |  2 ++
 3 files changed, 70 insertions(+), 42 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 6f3aa3f..f5eabf0 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -833,8 +833,8 @@ class Catalog(object):
             # file name version may be in a config dict, rather than kwarg.
             patch_centers = get(self.config,'patch_centers',str)
 
-        has_patch_col = (self.config.get('patch_col',0) not in (0,'0')
-                         or self.config.get('patch_eval') is not None)
+        has_patch_col = (get_from_list(self.config,'patch_col',num,str,'0') != '0'
+                         or get_from_list(self.config,'patch_eval',num,str) is not None)
         if patch_centers is not None:
             if patch is not None or has_patch_col:
                 raise ValueError("Cannot provide both patch and patch_centers")
@@ -858,7 +858,7 @@ class Catalog(object):
             self._npatch = 1  # We might yet change this, but it will be correct at end of init.
 
         self.save_patch_dir = self.config.get('save_patch_dir',None)
-        allow_xyz = self.config.get('allow_xyz', False)
+        allow_xyz = get_from_list(self.config,'allow_xyz',num,bool,False)
 
         # First style -- read from a file
         if file_name is not None:
@@ -883,8 +883,8 @@ class Catalog(object):
                 self.reader = ParquetReader(file_name)
                 self._check_file(file_name, self.reader, num, is_rand)
             else:
-                delimiter = self.config.get('delimiter',None)
-                comment_marker = self.config.get('comment_marker','#')
+                delimiter = get_from_list(self.config,'delimiter',num,str,None)
+                comment_marker = get_from_list(self.config,'comment_marker',num,str,'#')
                 try:
                     self.reader = PandasReader(file_name, delimiter=delimiter,
                                                comment_marker=comment_marker)
@@ -1004,8 +1004,8 @@ class Catalog(object):
             if ntot == 0:
                 raise ValueError("Input arrays have zero length")
 
-        if (x is not None or self.config.get('x_col','0') not in [0,'0']
-            or self.config.get('x_eval') is not None):
+        if (x is not None or get_from_list(self.config,'x_col',num,str,'0') != '0'
+            or get_from_list(self.config,'x_eval',num,str) is not None):
             if 'x_units' in self.config and 'y_units' not in self.config:
                 raise TypeError("x_units specified without specifying y_units")
             if 'y_units' in self.config and 'x_units' not in self.config:
@@ -1015,8 +1015,8 @@ class Catalog(object):
                 raise TypeError("x_units is invalid without x")
             if 'y_units' in self.config:
                 raise TypeError("y_units is invalid without y")
-        if (ra is not None or self.config.get('ra_col','0') not in [0,'0']
-            or self.config.get('ra_eval') is not None):
+        if (ra is not None or get_from_list(self.config,'ra_col',num,str,'0') != '0'
+            or get_from_list(self.config,'ra_eval',num,str) is not None):
             if not self.config.get('ra_units',None):
                 raise TypeError("ra_units is required when using ra, dec")
             if not self.config.get('dec_units',None):
@@ -1027,28 +1027,34 @@ class Catalog(object):
             if 'dec_units' in self.config:
                 raise TypeError("dec_units is invalid without dec")
 
-        if self.config.get('vark', None) is not None:
-            self._vark = self.config['vark']
+        vark = get_from_list(self.config,'vark',num,float)
+        if vark is not None:
+            self._vark = vark
             self._meank = 0.
             self._altmeank = 0.
-        if self.config.get('varz', None) is not None:
-            self._varz = self._varz1 = self._varz2 = self.config['varz']
+        varz = get_from_list(self.config,'varz',num,float)
+        if varz is not None:
+            self._varz = self._varz1 = self._varz2 = varz
             self._meanz1 = self._meanz2 = 0.
             self._altmeanz1 = self._altmeanz2 = 0.
-        if self.config.get('varv', None) is not None:
-            self._varv = self._varv1 = self._varv2 = self.config['varv']
+        varv = get_from_list(self.config,'varv',num,float)
+        if varv is not None:
+            self._varv = self._varv1 = self._varv2 = varv
             self._meanv1 = self._meanv2 = 0.
             self._altmeanv1 = self._altmeanv2 = 0.
-        if self.config.get('varg', None) is not None:
-            self._varg = self._varg1 = self._varg2 = self.config['varg']
+        varg = get_from_list(self.config,'varg',num,float)
+        if varg is not None:
+            self._varg = self._varg1 = self._varg2 = varg
             self._meang1 = self._meang2 = 0.
             self._altmeang1 = self._altmeang2 = 0.
-        if self.config.get('vart', None) is not None:
-            self._vart = self._vart1 = self._vart2 = self.config['vart']
+        vart = get_from_list(self.config,'vart',num,float)
+        if vart is not None:
+            self._vart = self._vart1 = self._vart2 = vart
             self._meant1 = self._meant2 = 0.
             self._altmeant1 = self._altmeant2 = 0.
-        if self.config.get('varq', None) is not None:
-            self._varq = self._varq1 = self._varq2 = self.config['varq']
+        varq = get_from_list(self.config,'varq',num,float)
+        if varq is not None:
+            self._varq = self._varq1 = self._varq2 = varq
             self._meanq1 = self._meanq2 = 0.
             self._altmeanq1 = self._altmeanq2 = 0.
 
@@ -1709,7 +1715,7 @@ class Catalog(object):
         q1_col = get_from_list(self.config,'q1_col',num,str,'0')
         q2_col = get_from_list(self.config,'q2_col',num,str,'0')
         patch_col = get_from_list(self.config,'patch_col',num,str,'0')
-        allow_xyz = self.config.get('allow_xyz', False)
+        allow_xyz = get_from_list(self.config,'allow_xyz',num,bool,False)
 
         x_eval = get_from_list(self.config,'x_eval',num,str,None)
         y_eval = get_from_list(self.config,'y_eval',num,str,None)
diff --git a/treecorr/config.py b/treecorr/config.py
index 6a46d1e..70ce139 100644
--- a/treecorr/config.py
+++ b/treecorr/config.py
@@ -207,12 +207,47 @@ def parse(value, value_type, name):
             return parse_bool(value)
         elif value is None:
             return None
+        elif value_type is list and isinstance(value, str):
+            # A list with only one item in a params file or on the command line.
+            return [value]
         else:
             return value_type(value)
     except ValueError:
         raise ValueError("Could not parse {}={} as type {}".format(name, value, value_type))
 
 
+def _parse_valid(value, value_type, valid_values, key):
+    """Parse a single value and check that it is one of the valid values, if these are limited.
+
+    :param value:           The value to parse.
+    :param value_type:      The type expected for this.
+    :param valid_values:    A list of the allowed values or None if there is no such limit.
+    :param key:             The name of this parameter.
+
+    :returns: value
+    """
+    orig_value = value
+    value = parse(value, value_type, key)
+
+    # If limited allowed value, check that this is one of them.
+    if valid_values is not None and value is not None:
+        if value_type is str:
+            matches = [ v for v in valid_values if value == v ]
+            if len(matches) == 0:
+                # Allow the string to be longer.
+                # e.g. degrees is valid if 'deg' is in valid_values.
+                matches = [v for v in valid_values if isinstance(v,str) and value.startswith(v)]
+            if len(matches) != 1:
+                raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
+                    key, orig_value, str(valid_values)))
+            value = matches[0]
+        else:
+            if value not in valid_values:
+                raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
+                    key, orig_value, str(valid_values)))
+    return value
+
+
 def check_config(config, params, aliases=None, logger=None):
     """Check (and update) a config dict to conform to the given parameter rules.
     The params dict has an entry for each valid config parameter whose value is a tuple
@@ -256,30 +291,15 @@ def check_config(config, params, aliases=None, logger=None):
         value_type, may_be_list, default_value, valid_values = params[key][:4]
 
         # Get the value
-        if may_be_list and isinstance(config[key], list):
-            value = [parse(v, value_type, key) for v in config[key] ]
+        if isinstance(config[key], list) and value_type is not list:
+            if not may_be_list:
+                raise ValueError("Parameter %s may not be a list: %s"%(key, config[key]))
+            value = [_parse_valid(v, value_type, valid_values, key) for v in config[key] ]
         else:
-            value = parse(config[key], value_type, key)
+            value = _parse_valid(config[key], value_type, valid_values, key)
             if value is None:
                 continue
 
-        # If limited allowed value, check that this is one of them.
-        if valid_values is not None and value is not None:
-            if value_type is str:
-                matches = [ v for v in valid_values if value == v ]
-                if len(matches) == 0:
-                    # Allow the string to be longer.
-                    # e.g. degrees is valid if 'deg' is in valid_values.
-                    matches = [v for v in valid_values if isinstance(v,str) and value.startswith(v)]
-                if len(matches) != 1:
-                    raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
-                        key, config[key], str(valid_values)))
-                value = matches[0]
-            else:
-                if value not in valid_values:
-                    raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
-                        key, config[key], str(valid_values)))
-
         # Write it back to the dict with the right type
         config[key] = value
 
diff --git a/treecorr/exec_corr2.py b/treecorr/exec_corr2.py
index f197c74..b48cfaf 100644
--- a/treecorr/exec_corr2.py
+++ b/treecorr/exec_corr2.py
@@ -300,6 +300,8 @@ def corr2(config, logger=None):
             logger.warning("Wrote NMap values to %s",config['nm_file_name'])
 
         if 'norm_file_name' in config:
+            if rand1 is None:
+                raise TypeError("rand_file_name is required for norm_file_name")
             gg = GGCorrelation(config, logger=logger)
             gg.process(cat2)
             logger.info("Done GG calculation for norm")
-- 
2.43.0


From f480d0bbda45582d356ef2c014b3e715b3e9e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:33 +0000
Subject: [PATCH 44/47] fix: with MPI, accumulating several process calls
 (initialize=False) added the earlier results of other ranks again, and
 replaced rather than added per-patch results

---
 treecorr/corr2base.py | 21 +++++++++++++++++++--
 treecorr/corr3base.py | 24 +++++++++++++++++++++---
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 58a9fb9..4188597 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -835,6 +835,21 @@ class Corr2(object):
             # NNCorrelation needs to add the tot value
             self._add_tot(ij, c1, c2)
 
+    def _start_rank(self, rank):
+        # When running with MPI, rank 0 has everything that was done so far (cf. initialize=False).
+        # So the other ranks should only have (and send) what they do in the current call.
+        if rank > 0:
+            self._clear()
+            self.results = {}
+
+    def _merge_results(self, results):
+        # Merge the per-patch results from another MPI process into self.results.
+        for key, res in results.items():
+            prev = self.results.get(key, None)
+            self.results[key] = res
+            if prev is not None:
+                self.results[key] += prev
+
     def _process_all_auto(self, cat1, metric, num_threads, comm, low_mem, local):
 
         def is_my_job(my_indices, i, j, n):
@@ -891,6 +906,7 @@ class Corr2(object):
                 rank = comm.Get_rank()
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
+                self._start_rank(rank)
             else:
                 my_indices = None
 
@@ -943,7 +959,7 @@ class Corr2(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        self._merge_results(temp.results)
 
     def _process_all_cross(self, cat1, cat2, metric, num_threads, comm, low_mem, local):
 
@@ -987,6 +1003,7 @@ class Corr2(object):
                 n = max(n1,n2)
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
+                self._start_rank(rank)
             else:
                 my_indices = None
 
@@ -1030,7 +1047,7 @@ class Corr2(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        self._merge_results(temp.results)
 
     def getStat(self):
         """The standard statistic for the current correlation object as a 1-d array.
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 9d5aacf..a85c472 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1200,6 +1200,21 @@ class Corr3(object):
             # NNNCorrelation needs to add the tot value
             self._add_tot(ijk, c1, c2, c3)
 
+    def _start_rank(self, rank):
+        # When running with MPI, rank 0 has everything that was done so far (cf. initialize=False).
+        # So the other ranks should only have (and send) what they do in the current call.
+        if rank > 0:
+            self._clear()
+            self.results = {}
+
+    def _merge_results(self, results):
+        # Merge the per-patch results from another MPI process into self.results.
+        for key, res in results.items():
+            prev = self.results.get(key, None)
+            self.results[key] = res
+            if prev is not None:
+                self.results[key] += prev
+
     def _process_all_auto(self, cat1, metric, num_threads, comm, low_mem, local):
 
         def is_my_job(my_indices, i, j, k, n):
@@ -1251,6 +1266,7 @@ class Corr3(object):
                 rank = comm.Get_rank()
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
+                self._start_rank(rank)
             else:
                 my_indices = None
 
@@ -1318,7 +1334,7 @@ class Corr3(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        self._merge_results(temp.results)
 
     def _process_all_cross12(self, cat1, cat2, metric, ordered, num_threads, comm, low_mem, local):
 
@@ -1377,6 +1393,7 @@ class Corr3(object):
                 n = max(n1,n2)
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
+                self._start_rank(rank)
             else:
                 my_indices = None
 
@@ -1447,7 +1464,7 @@ class Corr3(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        self._merge_results(temp.results)
 
     def _process_all_cross(self, cat1, cat2, cat3, metric, ordered, num_threads, comm, low_mem,
                            local):
@@ -1501,6 +1518,7 @@ class Corr3(object):
                 n = max(n1,n2,n3)
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
+                self._start_rank(rank)
             else:
                 my_indices = None
 
@@ -1578,7 +1596,7 @@ class Corr3(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        self._merge_results(temp.results)
 
     def getStat(self):
         """The standard statistic for the current correlation object as a 1-d array.
-- 
2.43.0


From 964219cf8a3ae5370495d07c2c66e7a50765cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:50 +0000
Subject: [PATCH 45/47] fix: Catalog.combine dropped the zero-weight objects of
 the later catalogs when the first one has none

---
 treecorr/catalog.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index f5eabf0..996708e 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1487,7 +1487,8 @@ class Catalog(object):
         loaded = cat.loaded
         cat.load()
         check_wpos = cat._wpos if cat._wpos is not None else cat._w
-        kwargs = dict(keep_zero_weight=np.any(check_wpos==0))
+        keep_zero_weight = np.any(check_wpos==0)
+        kwargs = {}
         if cat.ra is not None:
             kwargs['ra_units'] = 'rad'
             kwargs['dec_units'] = 'rad'
@@ -1517,13 +1518,15 @@ class Catalog(object):
                 if mask_list is not None:
                     a = a[mask_list[i]]
                 kwargs[key].append(a)
+            check_wpos = cat._wpos if cat._wpos is not None else cat._w
+            keep_zero_weight |= np.any(check_wpos==0)
             if not loaded and low_mem:
                 cat.unload()
 
         # Concatenate the arrays.
         for key in keys:
             kwargs[key] = np.concatenate(kwargs[key])
-        return Catalog(**kwargs)
+        return Catalog(keep_zero_weight=keep_zero_weight, **kwargs)
 
     def _assign_patches(self):
         # This is equivalent to the following:
-- 
2.43.0


From dddc85c5e84d2bbb0dd55f5769384e9fd568a8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:50 +0000
Subject: [PATCH 46/47] fix: Z, V, T and Q fields failed with a numpy Generator
 as rng

---
 treecorr/field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/treecorr/field.py b/treecorr/field.py
index 9e438a3..ef20fc2 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -682,7 +682,7 @@ class ZField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
@@ -745,7 +745,7 @@ class VField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
@@ -871,7 +871,7 @@ class TField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
@@ -933,7 +933,7 @@ class QField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
-- 
2.43.0


From e30634d265c5b7b946194b78b83eff5cfaace556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:56 +0000
Subject: [PATCH 47/47] fix: ASCII files with write_patch_results whose
 per-patch results are all empty could not be read

---
 treecorr/corr2base.py | 2 +-
 treecorr/corr3base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 4188597..4fa959d 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1825,7 +1825,7 @@ class Corr2(object):
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
         cov_complex = params.get('cov_complex', False)
-        name = 'main' if num_patch_pairs and name is None else name
+        name = 'main' if (num_patch_pairs or num_zero_patch) and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
         # This helper function defines how to set the attributes for each class
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index a85c472..d354df2 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2574,7 +2574,7 @@ class Corr3(object):
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
         cov_complex = params.get('cov_complex', False)
-        name = 'main' if num_patch_tri and name is None else name
+        name = 'main' if (num_patch_tri or num_zero_patch) and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
         # This helper function defines how to set the attributes for each class
-- 
2.43.0

