From 26dde296bb08c62b47f9ba7e33fbf33ba246e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 01/24] fix: test degeneracy of the domain, not of the rank it
 is assigned to

---
 pmesh/_domain.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/_domain.pyx b/pmesh/_domain.pyx
index cd54a08..b24a0e3 100644
--- a/pmesh/_domain.pyx
+++ b/pmesh/_domain.pyx
@@ -78,9 +78,9 @@ def gridnd_fill(
                     while t < 0:
                         t += dims[j]
                 target = target + t * strides[j]
-            target = DomainAssign[target]
 
             if not domain_is_degenerate[target]:
+                target = DomainAssign[target]
                 # build a sorted target_list
                 # bubble sort (for patch_size is small)
                 target_list[k] = target
-- 
2.43.0


From c2309dfa81d5bc1ae6d76a1ca15de58be105738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 02/24] fix: periodic decompose missed domains if smoothing is
 large or domains are uneven

---
 pmesh/domain.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 8768aac..cbf9f48 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -614,12 +614,17 @@ class GridND(object):
                     if periodic:
                         boxsize = self.edges[j][-1]
                         c = tmp % boxsize
-                        l = self._digitize((c - smoothing[j]) % boxsize, self.edges[j], right=False)
-                        r = self._digitize((c + smoothing[j]) % boxsize, self.edges[j], right=False)
-                        p = self._digitize(c, self.edges[j], right=False)
-                        l = p - (p - l) % self.shape[j] - 1
-                        r = p + (r - p) % self.shape[j]
-                        #print(l, p, r)
+                        lo = c - smoothing[j]
+                        hi = c + smoothing[j]
+                        # domain index without wrapping; _fill wraps the index.
+                        l = self._digitize(lo % boxsize, self.edges[j], right=False) - 1
+                        r = self._digitize(hi % boxsize, self.edges[j], right=False)
+                        l = l + numpy.int64(lo // boxsize) * self.shape[j]
+                        r = r + numpy.int64(hi // boxsize) * self.shape[j]
+                        # no need to go around more than once
+                        full = r - l >= self.shape[j]
+                        l[full] = 0
+                        r[full] = self.shape[j]
                         sil[j, s] = l
                         sir[j, s] = r
                     else:
-- 
2.43.0


From 20c2872ebfb99dcb60fa06ea69bfafef4fb30af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 03/24] fix: positions rounded up to the period by remainder
 belonged to no domain

---
 pmesh/domain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index cbf9f48..23d8ba9 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -442,6 +442,8 @@ class GridND(object):
                 for j in range(self.ndim):
                     if periodic:
                         tmp = numpy.remainder(chunk[:, j], self.edges[j][-1])
+                        # a tiny negative number is rounded up to the period
+                        tmp[tmp == self.edges[j][-1]] = 0
                     else:
                         tmp = chunk[:, j]
                     sil[j, s] = self._digitize(tmp, self.edges[j]) - 1
@@ -553,6 +555,8 @@ class GridND(object):
             chunk = transform(pos[s])[..., :self.ndim]
             if self.periodic:
                 chunk = numpy.remainder(chunk,  BoxSize)
+                # a tiny negative number is rounded up to the period
+                chunk = numpy.where(chunk == BoxSize, 0, chunk)
             # looping over all primary regions.
             for j in range(len(x0)):
                 r[s] += ((chunk >= x0[j]) & (chunk < x1[j])).all(axis=-1)
-- 
2.43.0


From b883cd93df6bf78554fcb68b1c18b00d6eedc030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 04/24] fix: GridND.uniform could create a decomposition
 without any domain

---
 pmesh/domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 23d8ba9..3ba7dc4 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -359,6 +359,9 @@ class GridND(object):
         shape = numpy.int32(shape)
         shape[shape < 1] = 1
         shape[imax] = 1
+        # leave room for at least one domain along imax
+        while numpy.prod(shape) > comm.size:
+            shape[shape.argmax()] -= 1
         shape[imax] = comm.size // numpy.prod(shape)
         assert numpy.prod(shape) <= comm.size
 
-- 
2.43.0


From d59327df77bc55b28ee934cb5c8af428f90c365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 05/24] fix: raise shape errors of exchange and gather on all
 ranks together

---
 pmesh/domain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 3ba7dc4..f3bee22 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -52,7 +52,7 @@ def promote(data, comm):
     dtype_root = comm.bcast(data.dtype)
     data = data.astype(dtype_root)
     shape_root = comm.bcast(data.shape)
-    if shape_root[1:] != data.shape[1:]:
+    if any(comm.allgather(shape_root[1:] != data.shape[1:])):
         raise ValueError('the shape of the data does not match across ranks.')
     return data
 
@@ -159,6 +159,9 @@ class Layout(object):
 
         """
         if pack:
+            lengths = set(len(arg) for arg in args)
+            if any(self.comm.allgather(len(lengths) > 1)):
+                raise ValueError('the shape of the data does not match across different columns.')
             data = pack_arrays(args)
             newdata = self._exchange(data)
             r = tuple([newdata[name] for name in newdata.dtype.names])
-- 
2.43.0


From d57b7555d9c503258b967a46197bb5dd1a45b40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:50 +0000
Subject: [PATCH 06/24] fix: gradient of the tuned PCS window ignored the scale
 of the transform

---
 pmesh/_window_tuned_pcs.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pmesh/_window_tuned_pcs.h b/pmesh/_window_tuned_pcs.h
index eb92dca..e1eb658 100644
--- a/pmesh/_window_tuned_pcs.h
+++ b/pmesh/_window_tuned_pcs.h
@@ -29,11 +29,11 @@
                               * (2 + (XYZ[d] - IJK3[d])); \
         } else { \
             V1[d] = + 1.0 / 6.0 * (- 12 * (XYZ[d] - IJK1[d]) \
-                                   + 9 * (XYZ[d] - IJK1[d]) * (XYZ[d] - IJK1[d])); \
+                                   + 9 * (XYZ[d] - IJK1[d]) * (XYZ[d] - IJK1[d])) * painter->scale[d]; \
             V2[d] = - 1.0 / 6.0 * (+ 12 * (XYZ[d] - IJK2[d]) \
-                                   + 9 * (XYZ[d] - IJK2[d]) * (XYZ[d] - IJK2[d])); \
-            V0[d] = - 1.0 / 2.0 * (2 - (XYZ[d] - IJK0[d])) * (2 - (XYZ[d] - IJK0[d])); \
-            V3[d] = + 1.0 / 2.0 * (2 + (XYZ[d] - IJK3[d])) * (2 + (XYZ[d] - IJK3[d])); \
+                                   + 9 * (XYZ[d] - IJK2[d]) * (XYZ[d] - IJK2[d])) * painter->scale[d]; \
+            V0[d] = - 1.0 / 2.0 * (2 - (XYZ[d] - IJK0[d])) * (2 - (XYZ[d] - IJK0[d])) * painter->scale[d]; \
+            V3[d] = + 1.0 / 2.0 * (2 + (XYZ[d] - IJK3[d])) * (2 + (XYZ[d] - IJK3[d])) * painter->scale[d]; \
         } \
     } \
 \
-- 
2.43.0


From fb06672d60b9518b0503f245ccd05e5b243ca4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:50 +0000
Subject: [PATCH 07/24] fix: tuned windows ignored smoothing lengths that round
 up to the native support

---
 pmesh/_window_tuned_cic.h | 2 ++
 pmesh/_window_tuned_nnb.h | 2 ++
 pmesh/_window_tuned_pcs.h | 2 ++
 pmesh/_window_tuned_tsc.h | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/pmesh/_window_tuned_cic.h b/pmesh/_window_tuned_cic.h
index de10378..5c9fa42 100644
--- a/pmesh/_window_tuned_cic.h
+++ b/pmesh/_window_tuned_cic.h
@@ -136,6 +136,8 @@ static int
 mkname(_getfastmethod_cic) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
     if(window->support != 2) return 0;
+    /* the window is scaled by a non-integer support */
+    if(window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_cic_tuned_paint1); \
diff --git a/pmesh/_window_tuned_nnb.h b/pmesh/_window_tuned_nnb.h
index 8b3522e..df8fd4d 100644
--- a/pmesh/_window_tuned_nnb.h
+++ b/pmesh/_window_tuned_nnb.h
@@ -104,6 +104,8 @@ static int
 mkname(_getfastmethod_nnb) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
     if(window->support != 1) return 0;
+    /* the window is scaled by a non-integer support */
+    if(window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_nnb_tuned_paint1); \
diff --git a/pmesh/_window_tuned_pcs.h b/pmesh/_window_tuned_pcs.h
index e1eb658..c199c06 100644
--- a/pmesh/_window_tuned_pcs.h
+++ b/pmesh/_window_tuned_pcs.h
@@ -300,6 +300,8 @@ static int
 mkname(_getfastmethod_pcs) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
     if(window->support != 4) return 0;
+    /* the window is scaled by a non-integer support */
+    if(window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_pcs_tuned_paint1); \
diff --git a/pmesh/_window_tuned_tsc.h b/pmesh/_window_tuned_tsc.h
index f70731b..10f822d 100644
--- a/pmesh/_window_tuned_tsc.h
+++ b/pmesh/_window_tuned_tsc.h
@@ -189,6 +189,8 @@ static int
 mkname(_getfastmethod_tsc) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
     if(window->support != 3) return 0;
+    /* the window is scaled by a non-integer support */
+    if(window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_tsc_tuned_paint1); \
-- 
2.43.0


From 1100f13c35e66371adcdb063244d5dcaefd97b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:11 +0000
Subject: [PATCH 08/24] fix: whitenoise is not Hermitian if the first two sides
 of the mesh differ

---
 pmesh/_whitenoise_generics.h | 6 +++---
 pmesh/_whitenoise_imp.c      | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index 8e3eac1..e134ad7 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -81,15 +81,15 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
         for(j = 0; j < i; j++)
             SETSEED(self, self->Nmesh[0] - 1 - i, j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[1] - 1 - j, i, rng);
+            SETSEED(self, self->Nmesh[0] - 1 - j, i, rng);
         for(j = 0; j < i; j++)
             SETSEED(self, i, self->Nmesh[1] - 1 - j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, j, self->Nmesh[0] - 1 - i, rng);
+            SETSEED(self, j, self->Nmesh[1] - 1 - i, rng);
         for(j = 0; j < i; j++)
             SETSEED(self, self->Nmesh[0] - 1 - i, self->Nmesh[1] - 1 - j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[1] - 1 - j, self->Nmesh[0] - 1 - i, rng);
+            SETSEED(self, self->Nmesh[0] - 1 - j, self->Nmesh[1] - 1 - i, rng);
     }
     gsl_rng_free(rng);
 
diff --git a/pmesh/_whitenoise_imp.c b/pmesh/_whitenoise_imp.c
index c47324b..5401c09 100644
--- a/pmesh/_whitenoise_imp.c
+++ b/pmesh/_whitenoise_imp.c
@@ -31,6 +31,10 @@ SETSEED(PMeshWhiteNoiseGenerator * self, int i, int j, gsl_rng * rng)
 { 
     unsigned int seed = 0x7fffffff * gsl_rng_uniform(rng); 
 
+    /* the rings of seeds extend beyond the shorter side of the mesh */
+    if(i < 0 || i >= self->Nmesh[0]) return;
+    if(j < 0 || j >= self->Nmesh[1]) return;
+
     int ii[2] = {i, (self->Nmesh[0] - i) % self->Nmesh[0]};
     int jj[2] = {j, (self->Nmesh[1] - j) % self->Nmesh[1]};
     int d1, d2;
-- 
2.43.0


From 754f1551fe0e1c786ed512aaf719513291188e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:11 +0000
Subject: [PATCH 09/24] fix: whitenoise in full storage is not Hermitian if the
 last side of the mesh is odd

---
 pmesh/_whitenoise_generics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index e134ad7..cb0bd25 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -149,7 +149,7 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                 gsl_rng_set(this_rng, seed_this);
 
                 for(k = 0; k <= self->Nmesh[2] / 2; k ++) {
-                    int use_conj = (d1 != 0 || d2 != 0) && (k == 0 || k == self->Nmesh[2] / 2);
+                    int use_conj = (d1 != 0 || d2 != 0) && (k == 0 || 2 * k == self->Nmesh[2]);
 
                     double ampl, phase;
                     if(use_conj) {
-- 
2.43.0


From 2b390dfe597ddbfbee80477fcd46bfc3b9ac777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:11 +0000
Subject: [PATCH 10/24] fix: whitenoise left modes unset if a block only
 contains negative modes of the last axis

---
 pmesh/_whitenoise_generics.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index cb0bd25..a998fc8 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -163,6 +163,9 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                     }
 
                     ptrdiff_t iabs[3] = {i, j, k};
+                    if(sign == -1) {
+                        iabs[2] = self->Nmesh[2] - k;
+                    }
 
                     /* mode is not there, skip it */
                     if(!mkname(_has_mode)(self, iabs)) {
@@ -193,7 +196,6 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                     */
 
                     if(sign == -1) {
-                        iabs[2] = self->Nmesh[2] - k;
                         im = - im;
                     }
 
-- 
2.43.0


From f3ad7fad39e8133842b9c3992193bf450d3380b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:11 +0000
Subject: [PATCH 11/24] fix: whitenoise of odd or non-square meshes left rows
 without a seed

---
 pmesh/_whitenoise_generics.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index a998fc8..dd62ea1 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -73,7 +73,11 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_ranlxd1);
     gsl_rng_set(rng, seed);
 
-    for(i = 0; i < self->Nmesh[0] / 2; i++) {
+    /* enough rings to seed every row; the middle row of an odd side needs one more ring. */
+    int nring = self->Nmesh[0] > self->Nmesh[1] ? self->Nmesh[0] : self->Nmesh[1];
+    nring = (nring + 1) / 2;
+
+    for(i = 0; i < nring; i++) {
         for(j = 0; j < i; j++)
             SETSEED(self, i, j, rng);
         for(j = 0; j < i + 1; j++)
-- 
2.43.0


From 535bf77a970c63d08c8f1331cf1ba9894f462c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:25 +0000
Subject: [PATCH 12/24] fix: reindex and resample mapped modes wrongly if a
 side of the mesh is odd

---
 pmesh/pm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 1ebc8c7..42ceed4 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -531,13 +531,13 @@ class Field(NDArrayLike):
             # FIXME: the nyquist is messy due to hermitian constraints
             # let's do not touch them till we know they are important.
             mask = functools.reduce(numpy.bitwise_or,
-                 [ ii == n // 2
+                 [ 2 * ii == n
                    for ii, n in zip(i, complex.Nmesh)])
             slab[mask] = 0
 
             # also remove the nyquist of the input
             mask = functools.reduce(numpy.bitwise_or,
-                 [ ii == n // 2
+                 [ 2 * ii == n
                    for ii, n in zip(i, self.Nmesh)])
             slab[mask] = 0
 
@@ -1139,8 +1139,10 @@ def reindex(Nsrc, Ndest):
 
     """
     reindex = numpy.arange(Ndest)
-    reindex[Ndest // 2 + 1:] = numpy.arange(Nsrc - Ndest // 2 + 1, Nsrc, 1)
-    reindex[Nsrc // 2 + 1: Ndest -Nsrc //2 + 1] = -1
+    # there are (N - 1) // 2 negative frequencies, excluding the nyquist
+    Nneg = (Ndest - 1) // 2
+    reindex[Ndest - Nneg:] = numpy.arange(Nsrc - Nneg, Nsrc, 1)
+    reindex[Nsrc // 2 + 1: Ndest - (Nsrc - 1) // 2] = -1
     return reindex
 
 def exchange(layout, value):
-- 
2.43.0


From 2ce184b69a6fb54ed757268c84ec2799fb1526e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:25 +0000
Subject: [PATCH 13/24] fix: coordinates of odd meshes were outside of [-N/2,
 N/2)

---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 42ceed4..3f4e154 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1190,7 +1190,7 @@ def _init_i_coords(partition, Nmesh, BoxSize, dtype):
 
         ri = numpy.arange(t[d], dtype=dtype) + partition.local_i_start[d]
 
-        ri[ri >= Nmesh[d] // 2] -= Nmesh[d]
+        ri[ri >= (Nmesh[d] + 1) // 2] -= Nmesh[d]
 
         xi = ri * BoxSize[d] / Nmesh[d]
 
@@ -1214,7 +1214,7 @@ def _init_o_coords(partition, Nmesh, BoxSize, dtype):
 
         wi = numpy.arange(s[d], dtype=dtype) + partition.local_o_start[d]
 
-        wi[wi >= Nmesh[d] // 2] -= Nmesh[d]
+        wi[wi >= (Nmesh[d] + 1) // 2] -= Nmesh[d]
 
         wi *= (2 * numpy.pi / Nmesh[d])
         ki = wi * Nmesh[d] / BoxSize[d]
-- 
2.43.0


From 65ac3d84981a5b0817c8a69d8ba6c8426c67d669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:25 +0000
Subject: [PATCH 14/24] fix: weights of compressed modes were wrong if the last
 side is odd

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 3f4e154..50f4c4e 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -913,7 +913,7 @@ class BaseComplexField(Field):
         y = y.copy()
         # if a conjugate is not stored and not self, increase the weight
         # because we shall add it.
-        mask = (i[-1] != 0) & (i[-1] != self.Nmesh[-1] // 2)
+        mask = (i[-1] != 0) & (2 * i[-1] != self.Nmesh[-1])
         y += mask * y
         return y
 
-- 
2.43.0


From 1055dd4bbea08ce4dbeb28718bf7505f760492ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:25 +0000
Subject: [PATCH 15/24] fix: upsample lost contributions of wide windows at
 domain boundaries

---
 pmesh/pm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 50f4c4e..22f5733 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1970,7 +1970,6 @@ class ParticleMesh(object):
                     period=source.Nmesh)
 
         layout = source.pm.decompose(q, smoothing=resampler, transform=transform)
-        layout = source.pm.decompose(q, smoothing=1.6, transform=transform)
 
         f = source.readout(q, resampler=resampler, layout=layout, transform=transform)
 
-- 
2.43.0


From f86e309cea3bed685cb2d0295ac2a9b143967e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:57 +0000
Subject: [PATCH 16/24] fix: route single precision positions to the rank where
 they are primary

---
 pmesh/domain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index f3bee22..69b040d 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -444,7 +444,8 @@ class GridND(object):
             chunksize = 1024 * 48
             for i in range(0, Npoint, chunksize):
                 s = slice(i, i + chunksize)
-                chunk = transform(pos[s])
+                # in double precision, to agree with isprimary
+                chunk = numpy.asarray(transform(pos[s]), dtype='f8')
                 for j in range(self.ndim):
                     if periodic:
                         tmp = numpy.remainder(chunk[:, j], self.edges[j][-1])
@@ -618,7 +619,8 @@ class GridND(object):
             chunksize = 1024 * 48
             for i in range(0, Npoint, chunksize):
                 s = slice(i, i + chunksize)
-                chunk = transform(pos[s])
+                # in double precision, to agree with isprimary
+                chunk = numpy.asarray(transform(pos[s]), dtype='f8')
                 for j in range(self.ndim):
                     tmp = chunk[:, j]
                     if periodic:
-- 
2.43.0


From e7a2c00bea976a9973ef8a33e7fbcfd0b41c5142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:03 +0000
Subject: [PATCH 17/24] fix: mode index of odd meshes accepted a mode outside
 of the mesh

---
 pmesh/_invariant.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pmesh/_invariant.pyx b/pmesh/_invariant.pyx
index f4f209d..634e311 100644
--- a/pmesh/_invariant.pyx
+++ b/pmesh/_invariant.pyx
@@ -40,10 +40,11 @@ def get_index(inttype [:, :] x, ptrdiff_t [:] Nmesh, compressed, maxlength=None)
                 # The nyquist frequency has a confusion -- it can be either.
                 # we always map it to the positive.
                 # PMesh and FFT uses a negative nyquist freq; correct for it here.
-                if xi[d] == - Nmesh[d] // 2:
+                # an odd mesh has no nyquist frequency.
+                if 2 * xi[d] == - Nmesh[d]:
                     xi[d] = Nmesh[d] // 2
 
-                if xi[d] > Nmesh[d] // 2 or xi[d] < -Nmesh[d] // 2:
+                if 2 * xi[d] > Nmesh[d] or 2 * xi[d] < -Nmesh[d]:
                     bad = 1
             if bad:
                 r[i] = -1
-- 
2.43.0


From fb1654ec178bcad2ff34cd67cf78824025704697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:02 +0000
Subject: [PATCH 18/24] fix: a rank without a local mesh took over the domain
 of the first rank

---
 pmesh/pm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 22f5733..59ac952 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1453,7 +1453,12 @@ class ParticleMesh(object):
         size = numpy.prod(shape)
         ilocal = tuple(numpy.flatnonzero(iedges == istart)[0] for istart, iedges in zip(partition.local_i_start, partition.i_edges))
         ilocal = numpy.ravel_multi_index(ilocal, shape, mode='raise', order='C')
+        if any(partition.local_i_shape == 0):
+            # pfft reports a start of 0 if nothing is stored locally; that is not our domain.
+            ilocal = -1
         ilocals = numpy.array(self.comm.allgather(ilocal))
+        # ranks without a local mesh take the domains that are left, which are empty.
+        ilocals[ilocals == -1] = numpy.setdiff1d(numpy.arange(self.comm.size), ilocals)
         DomainAssign = numpy.empty(size, dtype='int32')
         for irank, ilocal in enumerate(ilocals):
             start = ilocal * size // self.comm.size
-- 
2.43.0


From 5b224bc5397c0fe4254d012099081627483607be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:02 +0000
Subject: [PATCH 19/24] fix: readout_jvp ignored the direction of the gradient

---
 pmesh/pm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 59ac952..4403d69 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -850,11 +850,13 @@ class RealField(Field):
         jvp = numpy.zeros(len(pos))
 
         if v_pos is not None:
+            if gradient is not None:
+                raise ValueError("gradient of gradient is not yet supported")
             for d in range(self.ndim):
                 jvp[...] += self.readout(pos, resampler=resampler, transform=transform, gradient=d, layout=layout) * v_pos[..., d]
 
         if v_self is not None:
-            jvp[...] += v_self.readout(pos, resampler=resampler, transform=transform, gradient=None, layout=layout)
+            jvp[...] += v_self.readout(pos, resampler=resampler, transform=transform, gradient=gradient, layout=layout)
 
         return jvp
 
-- 
2.43.0


From 6d928d3fbf6933ab00915b28b91744b4ed4e6888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:16 +0000
Subject: [PATCH 20/24] fix: iterating over the slabs of a one dimensional
 field failed

---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 4403d69..647adb8 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -87,8 +87,8 @@ class slab(numpy.ndarray):
 class slabiter(object):
     def __init__(self, field, value):
         # we iterate over the slowest axis to gain locality.
-        if field.ndim == 2:
-            axis = 2
+        if field.ndim <= 2:
+            axis = field.ndim
             self.optimized_view = value[None, ...]
             self.nslabs = 1
             self.optx = [xx[None, ...] for xx in field.x]
-- 
2.43.0


From 82c717f2a027a22529fd7c9adc49be889cf3089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:24 +0000
Subject: [PATCH 21/24] fix: resample to a smaller mesh removed a negative mode
 together with the nyquist mode

---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 647adb8..24037cf 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -537,8 +537,8 @@ class Field(NDArrayLike):
 
             # also remove the nyquist of the input
             mask = functools.reduce(numpy.bitwise_or,
-                 [ 2 * ii == n
-                   for ii, n in zip(i, self.Nmesh)])
+                 [ (2 * ii == n) & (n <= nout) # otherwise ii is a negative mode of the output
+                   for ii, n, nout in zip(i, self.Nmesh, complex.Nmesh)])
             slab[mask] = 0
 
         if isinstance(out, RealField):
-- 
2.43.0


From 7ca624217aa96266480867c7c36056e3e7fbde30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:54 +0000
Subject: [PATCH 22/24] fix: gather scrambled data that is stored in Fortran
 order

---
 pmesh/domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 69b040d..f5d5dbb 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -50,7 +50,8 @@ def bincountv(x, weights, minlength=None, dtype=None, out=None):
 def promote(data, comm):
     data = numpy.asarray(data)
     dtype_root = comm.bcast(data.dtype)
-    data = data.astype(dtype_root)
+    # items must be contiguous for the communication
+    data = data.astype(dtype_root, order='C')
     shape_root = comm.bcast(data.shape)
     if any(comm.allgather(shape_root[1:] != data.shape[1:])):
         raise ValueError('the shape of the data does not match across ranks.')
-- 
2.43.0


From d35dcbb27ce30afb8094533333d0d6172aee0fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:36 +0000
Subject: [PATCH 23/24] fix: resample into an untransposed complex field left
 the modes in transposed layout

---
 pmesh/pm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 24037cf..7e8d4a0 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -543,6 +543,9 @@ class Field(NDArrayLike):
 
         if isinstance(out, RealField):
             complex.c2r(out)
+        elif not isinstance(out, TransposedComplexField):
+            # the modes were filled in the transposed layout
+            complex.cast(type=_gettype(out), out=out)
 
         return out
 
-- 
2.43.0


From dab8b4effa70a604236ad2070907a914896f5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:19 +0000
Subject: [PATCH 24/24] fix: preview ignored the order of the axes when all
 axes are kept

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 7e8d4a0..43239f3 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -612,7 +612,7 @@ class Field(NDArrayLike):
             removeaxes = tuple(range(len(all_axes) - len(removeaxes), len(all_axes)))
             result[local_slice] += out.transpose(all_axes).sum(axis=removeaxes)
         else:
-            result[local_slice] += out
+            result[local_slice] += out.transpose(axes)
 
         self.pm.comm.Allreduce(MPI.IN_PLACE, result)
         return result
-- 
2.43.0

