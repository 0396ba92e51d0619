From 82d70110481ab1a0b56064980c90922f6cde3620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:12 +0000
Subject: [PATCH 01/55] fix: treat DOY_RANGE with equal bounds as a single day

Giving the same day of year twice fell into the branch for seasons that
wrap around new year, so the whole year was selected.
---
 src/modules/higher-level/param-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/param-hl.c b/src/modules/higher-level/param-hl.c
index 604a62f..0a70279 100755
--- a/src/modules/higher-level/param-hl.c
+++ b/src/modules/higher-level/param-hl.c
@@ -1053,7 +1053,7 @@ double tol = 5e-3;
        phl->doy_range[_MIN_] > 0 && 
        phl->doy_range[_MAX_] > 0){
 
-    if (phl->doy_range[_MIN_] < phl->doy_range[_MAX_]){
+    if (phl->doy_range[_MIN_] <= phl->doy_range[_MAX_]){
       for (d=phl->doy_range[_MIN_]; d<=phl->doy_range[_MAX_]; d++) phl->date_doys[d] = true;
     } else {
       for (d=1; d<=phl->doy_range[_MAX_];   d++) phl->date_doys[d] = true;
-- 
2.43.0


From cf94a4385c762a84378954ec513c7692fb238852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:32 +0000
Subject: [PATCH 02/55] fix: include the last month in clear-sky observation
 windows

A window starting in the month in which the date range ends was not
counted. With MONTH_STEP = 1, December was missing from full years.
---
 src/modules/higher-level/cso-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/cso-hl.c b/src/modules/higher-level/cso-hl.c
index 61eb151..e3349ec 100755
--- a/src/modules/higher-level/cso-hl.c
+++ b/src/modules/higher-level/cso-hl.c
@@ -244,7 +244,7 @@ bool alloc_q_array = false;
   month = phl->date_range[_MIN_].month;
   
   while (year < phl->date_range[_MAX_].year ||
-        (year <= phl->date_range[_MAX_].year && month < phl->date_range[_MAX_].month)){
+        (year <= phl->date_range[_MAX_].year && month <= phl->date_range[_MAX_].month)){
     nw++;
     if ((month += phl->cso.step) > 12){ year++; month -= 12;}
   }
-- 
2.43.0


From 550608e40519266839fded138466f5ef93f65b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:05:04 +0000
Subject: [PATCH 03/55] fix: use the number of intervals in clear-sky interval
 statistics

Standard deviation, skewness, kurtosis and quantiles of the time between
clear-sky observations were computed with the number of observations,
although the array holds the intervals including those to the window
boundaries. The longest interval was lost, and windows without any
observation reported 0 in the quantiles.
---
 src/modules/higher-level/cso-hl.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/modules/higher-level/cso-hl.c b/src/modules/higher-level/cso-hl.c
index e3349ec..849b804 100755
--- a/src/modules/higher-level/cso-hl.c
+++ b/src/modules/higher-level/cso-hl.c
@@ -356,14 +356,16 @@ bool alloc_q_array = false;
 
         } else {
 
-          minimum = maximum = mean = cs.d_cso[w+1].ce-cs.d_cso[w].ce;
+          minimum = maximum = mean = d_ce = cs.d_cso[w+1].ce-cs.d_cso[w].ce;
+          if (alloc_q_array) q_array[k] = (float)d_ce;
+          k++;
 
         }
 
 
-        if (n > 0){
-          skewscaled = skewness(var, skew, n)*1000;
-          kurtscaled = (kurtosis(var, kurt, n)-3)*1000;
+        if (k > 1){
+          skewscaled = skewness(var, skew, k)*1000;
+          kurtscaled = (kurtosis(var, kurt, k)-3)*1000;
           if (skewscaled < -30000) skewscaled = -30000;
           if (skewscaled >  30000) skewscaled =  30000;
           if (kurtscaled < -30000) kurtscaled = -30000;
@@ -374,21 +376,21 @@ bool alloc_q_array = false;
         if (phl->cso.sta.max > -1) cs.cso_[phl->cso.sta.max][w][p] = maximum;
         if (phl->cso.sta.rng > -1) cs.cso_[phl->cso.sta.rng][w][p] = maximum-minimum;
         if (phl->cso.sta.avg > -1) cs.cso_[phl->cso.sta.avg][w][p] = (short)mean;
-        if (phl->cso.sta.std > -1) cs.cso_[phl->cso.sta.std][w][p] = (short)standdev(var, n);
+        if (phl->cso.sta.std > -1) cs.cso_[phl->cso.sta.std][w][p] = (short)standdev(var, k);
         if (phl->cso.sta.skw > -1) cs.cso_[phl->cso.sta.skw][w][p] = (short)skewscaled;
         if (phl->cso.sta.krt > -1) cs.cso_[phl->cso.sta.krt][w][p] = (short)kurtscaled;
 
         if (phl->cso.sta.quantiles){
           for (q=0; q<phl->cso.sta.nquantiles; q++){
-            cs.cso_[phl->cso.sta.qxx[q]][w][p] = (short)quantile(q_array, n, phl->cso.sta.q[q]);
+            cs.cso_[phl->cso.sta.qxx[q]][w][p] = (short)quantile(q_array, k, phl->cso.sta.q[q]);
             if (phl->cso.sta.q[q] == 0.25) q25_ = cs.cso_[phl->cso.sta.qxx[q]][w][p];
             if (phl->cso.sta.q[q] == 0.75) q75_ = cs.cso_[phl->cso.sta.qxx[q]][w][p];
           }
         }
 
         if (phl->cso.sta.iqr > -1){
-          if (q25_ == SHRT_MIN) q25_ = (short)quantile(q_array, n, 0.25);
-          if (q75_ == SHRT_MIN) q75_ = (short)quantile(q_array, n, 0.75);
+          if (q25_ == SHRT_MIN) q25_ = (short)quantile(q_array, k, 0.25);
+          if (q75_ == SHRT_MIN) q75_ = (short)quantile(q_array, k, 0.75);
           cs.cso_[phl->cso.sta.iqr][w][p] = q75_-q25_;
         }
 
-- 
2.43.0


From 8767dd2f83328e7867dde92d4a200e29b6bc7405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:02 +0000
Subject: [PATCH 04/55] fix: read the left neighbourhood from the correct block
 column

The offset of the neighbouring block was dropped, so blocks right of the
second column got their left margin from the first column of the tile.
---
 src/modules/higher-level/read-ard-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/read-ard-hl.c b/src/modules/higher-level/read-ard-hl.c
index 3d7f226..eab44c2 100755
--- a/src/modules/higher-level/read-ard-hl.c
+++ b/src/modules/higher-level/read-ard-hl.c
@@ -997,7 +997,7 @@ double tol = 5e-3;
 
   if (fabs(partial_x) > tol){
     width = fabs(partial_x);
-    if (partial_x < 0) x_offset = chunk_size[_X_]+partial_x;
+    if (partial_x < 0) x_offset = x_offset+chunk_size[_X_]+partial_x;
   }
   
   if (fabs(partial_y) > tol){
-- 
2.43.0


From a5069079477d7ef8a9a5fb837362576f12320f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:02 +0000
Subject: [PATCH 05/55] fix: sum up the bytes read and written over all blocks

Without streaming, the counters only held the last block. FAIL_IF_EMPTY
failed a run whose last block was empty although products were written.
---
 src/modules/higher-level/tasks-hl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/tasks-hl.c b/src/modules/higher-level/tasks-hl.c
index 5cf6e91..97e344b 100755
--- a/src/modules/higher-level/tasks-hl.c
+++ b/src/modules/higher-level/tasks-hl.c
@@ -116,7 +116,7 @@ off_t bytes = 0;
   }
 
 
-  *ibytes = bytes;
+  *ibytes += bytes;
 
   measure_progress(pro, _TASK_INPUT_, _CLOCK_TOCK_);
 
@@ -317,7 +317,7 @@ int o;
   free((void*)OUTPUT[pu]);
   OUTPUT[pu] = NULL;
 
-  *obytes = bytes;
+  *obytes += bytes;
 
   measure_progress(pro, _TASK_OUTPUT_, _CLOCK_TOCK_);
 
-- 
2.43.0


From df73438b44583a1eddc0a582089defe74e81b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:10 +0000
Subject: [PATCH 06/55] fix: read a margin of two kernel radii for openings and
 closings

Opening, closing, top-hat and black-hat textures apply the kernel twice,
but the blocks were only extended by one radius. Pixels close to block
and tile borders came out wrong.
---
 src/modules/higher-level/param-hl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/higher-level/param-hl.c b/src/modules/higher-level/param-hl.c
index 0a70279..fdd7211 100755
--- a/src/modules/higher-level/param-hl.c
+++ b/src/modules/higher-level/param-hl.c
@@ -1095,6 +1095,8 @@ double tol = 5e-3;
 
   if (phl->type == _HL_TXT_){
     phl->radius = phl->txt.radius*phl->txt.iter;
+    // opening and closing based metrics apply the kernel twice
+    if (phl->txt.oopn || phl->txt.ocls || phl->txt.otht || phl->txt.obht) phl->radius *= 2;
     phl->txt.radius = (int)(phl->txt.radius/phl->res);
   } else if (phl->type == _HL_LSM_){
     phl->radius = phl->lsm.radius;
-- 
2.43.0


From 8885e8835fba9445288b5f7d8c94c88160da4c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:10 +0000
Subject: [PATCH 07/55] fix: fill landscape metrics of blocks without patches

With LSM_ALL_PIXELS, pixels without any patch in the neighbourhood are 0,
but they were nodata if the whole block had no patch.
---
 src/modules/higher-level/lsm-hl.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/modules/higher-level/lsm-hl.c b/src/modules/higher-level/lsm-hl.c
index 1af37c2..2c782ed 100755
--- a/src/modules/higher-level/lsm-hl.c
+++ b/src/modules/higher-level/lsm-hl.c
@@ -281,6 +281,21 @@ float unit_perim = 0;
         if (mask_ != NULL && !mask_[p]) continue;
         if (!features[f].msk[p] && phl->ftr.exclude) continue;
 
+        // all pixels requested: without any patch in the block, there is nothing to count
+        if (phl->lsm.allpx){
+          if (phl->lsm.ompa) lsm.mpa_[f][p] = 0;
+          if (phl->lsm.ouci) lsm.uci_[f][p] = 0;
+          if (phl->lsm.ofdi) lsm.fdi_[f][p] = 0;
+          if (phl->lsm.oedd) lsm.edd_[f][p] = 0;
+          if (phl->lsm.onbr) lsm.nbr_[f][p] = 0;
+          if (phl->lsm.oems) lsm.ems_[f][p] = 0;
+          if (phl->lsm.oavg) lsm.avg_[f][p] = 0;
+          if (phl->lsm.ostd) lsm.std_[f][p] = 0;
+          if (phl->lsm.ogeo) lsm.geo_[f][p] = 0;
+          if (phl->lsm.omax) lsm.max_[f][p] = 0;
+          if (phl->lsm.oare) lsm.are_[f][p] = 0;
+        }
+
         switch (phl->lsm.query[f]){
           case _QUERY_EQ_:
             if (features[f].dat[0][p] == phl->lsm.threshold[f]) newFeatures[p] = true;
-- 
2.43.0


From a885b895129be1759e470fc8e6121f1e9a82aeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:10 +0000
Subject: [PATCH 08/55] fix: keep the first pixel when segmenting a binary
 image

The upper left pixel was always deleted. Labels start at 1 without this.
---
 src/modules/cross-level/imagefuns-cl.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/modules/cross-level/imagefuns-cl.c b/src/modules/cross-level/imagefuns-cl.c
index d43baa3..29f53f2 100755
--- a/src/modules/cross-level/imagefuns-cl.c
+++ b/src/modules/cross-level/imagefuns-cl.c
@@ -636,9 +636,6 @@ int id, nc, p, no;
 
   alloc((void**)&CCL, nc, sizeof(int));
 
-  // to ensure that 1st object gets ID=1
-  image[0] = false;
-
   if ((no = connectedcomponents_(image, CCL, nx, ny)) > 0){
 
     alloc((void**)&CCS, no, sizeof(int));
-- 
2.43.0


From fac7efcd16f399b9a9a8b0d605563f1da4e3233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:10 +0000
Subject: [PATCH 09/55] fix: make majority filling independent of the
 processing order

Filled pixels were counted as neighbours of the pixels visited later, so
the result depended on the scan order and on the number of threads.
---
 src/modules/cross-level/imagefuns-cl.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/modules/cross-level/imagefuns-cl.c b/src/modules/cross-level/imagefuns-cl.c
index 29f53f2..e14132f 100755
--- a/src/modules/cross-level/imagefuns-cl.c
+++ b/src/modules/cross-level/imagefuns-cl.c
@@ -239,9 +239,14 @@ int nx, ny;
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 int majorfill_(small *image, int nx, int ny){
 int i, j, ii, jj, ni, nj, p, k;
+small *tmp = NULL;
+
 
+  // count in a copy, such that the order of filling does not matter
+  alloc((void**)&tmp, nx*ny, sizeof(small));
+  memmove(tmp, image, nx*ny*sizeof(small));
 
-  #pragma omp parallel private(j, p, ii, jj, ni, nj, k) shared(nx, ny, image) default(none) 
+  #pragma omp parallel private(j, p, ii, jj, ni, nj, k) shared(nx, ny, image, tmp) default(none) 
   {
 
     #pragma omp for schedule(guided)
@@ -250,7 +255,7 @@ int i, j, ii, jj, ni, nj, p, k;
       
       p = i*nx+j;
 
-      if (image[p]) continue;
+      if (tmp[p]) continue;
 
       k = 0;
 
@@ -261,7 +266,7 @@ int i, j, ii, jj, ni, nj, p, k;
         ni = i+ii; nj = j+jj;
         if (ni < 0 || ni >= ny || nj < 0 || nj >= nx) continue;
 
-        k += image[ni*nx+nj];
+        k += tmp[ni*nx+nj];
 
       }
       }
@@ -272,7 +277,8 @@ int i, j, ii, jj, ni, nj, p, k;
     }
     
   }
-  
+
+  free((void*)tmp);
 
   return SUCCESS;
 }
-- 
2.43.0


From 8d9654010919740cac3b6482a012f9474ac4d8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:59 +0000
Subject: [PATCH 10/55] fix: let row coordinates of an image decrease downwards

The y coordinate of an image row was computed upwards from the upper
edge. The box around a processing block was hence empty in the sampling
submodule, and no sample was extracted. The upper edge of a cropped
Sentinel-2 image was shifted to the wrong side.
---
 src/modules/cross-level/brick_base-cl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/cross-level/brick_base-cl.c b/src/modules/cross-level/brick_base-cl.c
index 72e26d6..a2cec22 100755
--- a/src/modules/cross-level/brick_base-cl.c
+++ b/src/modules/cross-level/brick_base-cl.c
@@ -1657,7 +1657,7 @@ double get_brick_uly(brick_t *brick){
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 double get_brick_y(brick_t *brick, int i){
 
-  return (brick->geotran[_GT_ULY_] + i*brick->geotran[_GT_RES_]);
+  return (brick->geotran[_GT_ULY_] - i*brick->geotran[_GT_RES_]);
 }
 
 
-- 
2.43.0


From 873cf2bde0c69afad5a2fa91383f5aceae7748da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:59 +0000
Subject: [PATCH 11/55] fix: assign coordinates on a tile border to the tile
 they open

A coordinate exactly on the left or upper border of a tile right of or
below the grid origin was assigned to the preceding tile, at a pixel
beyond its last one. Samples at such places were lost.
---
 src/modules/cross-level/cube-cl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/cross-level/cube-cl.c b/src/modules/cross-level/cube-cl.c
index e2ba358..284bd43 100755
--- a/src/modules/cross-level/cube-cl.c
+++ b/src/modules/cross-level/cube-cl.c
@@ -443,7 +443,7 @@ int px = 0, py = 0;
   if (x > tx){
 
     // shift tile-x to the right until x is left of tile-x
-    while (x > tx){
+    while (x >= tx){
       tx += cube->tile_size[_X_];
       px++;
     }
@@ -466,7 +466,7 @@ int px = 0, py = 0;
   if (y < ty){
 
     // shift tile-y to the bottom until y is above tile-y
-    while (y < ty){
+    while (y <= ty){
       ty -= cube->tile_size[_Y_];
       py++;
     }
-- 
2.43.0


From 9eb4055f24c80ef51bb2dc114b37a7804f36f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:59 +0000
Subject: [PATCH 12/55] fix: read values with blanks from tag and value files

The value was cut at the first blank. The projection in the datacube
definition was hence incomplete for nearly all projections, and
coordinates could not be transformed.
---
 src/modules/cross-level/read-cl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modules/cross-level/read-cl.c b/src/modules/cross-level/read-cl.c
index 96b5c84..c63db7a 100755
--- a/src/modules/cross-level/read-cl.c
+++ b/src/modules/cross-level/read-cl.c
@@ -69,7 +69,11 @@ int n_buf = 1;
       copy_string(tagval[n][_TV_TAG_], NPOW_10, ptr);
     }
 
-    if ((ptr = strtok_r(NULL, separator, &saveptr)) == NULL){
+    // value is the rest of the line, it may contain separators
+    ptr = saveptr + strspn(saveptr, separator);
+    while (*ptr != 0 && strchr(separator, ptr[strlen(ptr)-1]) != NULL) ptr[strlen(ptr)-1] = 0;
+
+    if (*ptr == 0){
       printf("could not read tag/value pair from:\n  %s\n", fname);
       free_3D((void***)tagval, n_buf, _TV_LENGTH_);
       fclose(fp);
-- 
2.43.0


From 6879b16217e19c54cc496eba1c3bbe26a4aeced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:59 +0000
Subject: [PATCH 13/55] fix: compute the index NDVIre1n

The index is documented and defined as NDVIre1n, but was implemented
under another name. Requesting it ended the program.
---
 src/modules/higher-level/index-compute-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/index-compute-hl.c b/src/modules/higher-level/index-compute-hl.c
index 4750307..5c6acc2 100755
--- a/src/modules/higher-level/index-compute-hl.c
+++ b/src/modules/higher-level/index-compute-hl.c
@@ -1101,7 +1101,7 @@ int tsa_spectral_index(ard_t *ard, tsa_t *ts, small *mask_, int nc, int nt, int
           band_for_index(ard[0].DAT, index->band_names[idx][0]), 
           band_for_index(ard[0].DAT, index->band_names[idx][1]), 
           nc, nt, nodata);
-      } else if (strcmp(index->names[idx], "NDVIren") == 0){
+      } else if (strcmp(index->names[idx], "NDVIre1n") == 0){
         cite_me(_CITE_NDVIre1n_);
         check_nbands_for_index(index->names[idx], 2, index->n_bands[idx]);
         index_differenced(ard, mask_, ts, 
-- 
2.43.0


From 589820cc136170e1d451a1dfc21519c4b7ade77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:59 +0000
Subject: [PATCH 14/55] fix: set modified simple ratios to nodata where
 undefined

The root of a negative number passed the test for valid values and was
stored as 0.
---
 src/modules/higher-level/index-compute-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/index-compute-hl.c b/src/modules/higher-level/index-compute-hl.c
index 5c6acc2..32de512 100755
--- a/src/modules/higher-level/index-compute-hl.c
+++ b/src/modules/higher-level/index-compute-hl.c
@@ -282,7 +282,7 @@ float upper, lower, ind, scale = 10000.0;
             upper = (ard[t].dat[b1][p] / (float)ard[t].dat[b2][p]) - 1.0;
             lower = sqrt((ard[t].dat[b1][p] / (float)ard[t].dat[b2][p]) + 1.0);
             ind = upper/lower;
-            if (lower == 0 || ind*scale > SHRT_MAX || ind*scale < SHRT_MIN){
+            if (!(lower > 0) || ind*scale > SHRT_MAX || ind*scale < SHRT_MIN){
               ts->tss_[t][p] = nodata;
             } else {
               ts->tss_[t][p] = (short)(ind*scale);
-- 
2.43.0


From 0c8c0d68f68bc11ef84d92486f318ceafb2284c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:59 +0000
Subject: [PATCH 15/55] fix: terminate the separator when listing parameters

A single character without terminator was printed as string, which read
beyond the variable.
---
 src/modules/cross-level/param-cl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/cross-level/param-cl.c b/src/modules/cross-level/param-cl.c
index d6ee773..9d04fc1 100755
--- a/src/modules/cross-level/param-cl.c
+++ b/src/modules/cross-level/param-cl.c
@@ -925,7 +925,7 @@ const char *separator = " =";
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 void print_parameter(params_t *params){
 int i, n;
-char eol[1];
+char eol[2] = { 0, 0 };
 
 
   printf("Parameter printout:\n");
@@ -1019,7 +1019,7 @@ void log_parameter(params_t *params){
 int i, n;
 char *cur = params->log;
 char *const end = params->log + NPOW_14;
-char eol[1];
+char eol[2] = { 0, 0 };
 
 
   for (i=0; i<params->n; i++){
-- 
2.43.0


From 27a1c6102c5df1d31c4cbc186674d512c0e07419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:59 +0000
Subject: [PATCH 16/55] fix: call Python user functions from the computing
 thread safely

The interpreter belongs to the thread that starts it, but user functions
are called from another thread when streaming is on. The program crashed.
---
 src/modules/higher-level/py-udf-hl.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/py-udf-hl.c b/src/modules/higher-level/py-udf-hl.c
index a3244d9..5a4a32d 100755
--- a/src/modules/higher-level/py-udf-hl.c
+++ b/src/modules/higher-level/py-udf-hl.c
@@ -48,6 +48,8 @@ typedef struct {
   PyArray_Descr *desc_bandname;
 } py_dimlab_t;
 
+static PyThreadState *py_main = NULL; // state of the thread that started python
+
 
 py_dimlab_t python_label_dimensions(ard_t *ard, tsa_t *ts, int submodule, char *idx_name, int nb_main, int nb_aux, int nt, par_udf_t *udf);
 int date_from_bandname(date_t *date, char *bandname);
@@ -176,6 +178,9 @@ par_udf_t *udf;
     exit(FAILURE);
   }
 
+  // release python, the UDF is not necessarily called from this thread
+  py_main = PyEval_SaveThread();
+
   #ifdef FORCE_DEBUG
   printf("finished to register python interface\n");
   #endif
@@ -203,7 +208,10 @@ par_udf_t *udf;
     return;
   }
 
-  if (udf->out) Py_Finalize();
+  if (udf->out){
+    PyEval_RestoreThread(py_main);
+    Py_Finalize();
+  }
 
   #ifdef FORCE_DEBUG
   printf("finished to deregister python interface\n");
@@ -234,6 +242,7 @@ PyObject *py_bandname = NULL;
 PyObject *py_encoded  = NULL;
 char *bandname = NULL;
 date_t date;
+PyGILState_STATE py_state;
 
 
   #ifdef FORCE_DEBUG
@@ -249,6 +258,7 @@ date_t date;
     return;
   }
 
+  py_state = PyGILState_Ensure();
 
   main_module = PyImport_AddModule("__main__");
   main_dict   = PyModule_GetDict(main_module);
@@ -316,6 +326,8 @@ date_t date;
   
   fclose(fpy);
 
+  PyGILState_Release(py_state);
+
   #ifdef FORCE_DEBUG
   printf("finished to initialize python interface\n");
   #endif
@@ -478,6 +490,7 @@ PyArrayObject* py_data     = NULL;
 PyArrayObject *py_return   = NULL;
 short* data_    = NULL;
 short* return_  = NULL;
+PyGILState_STATE py_state;
 
 
   if (submodule == _HL_UDF_ && udf_->pyp_ == NULL) return CANCEL;
@@ -488,6 +501,8 @@ short* return_  = NULL;
   printf("starting to run python interface\n");
   #endif
 
+  py_state = PyGILState_Ensure();
+
   main_module = PyImport_AddModule("__main__");
   main_dict   = PyModule_GetDict(main_module);
 
@@ -598,6 +613,8 @@ short* return_  = NULL;
 
   fclose(fpy);
 
+  PyGILState_Release(py_state);
+
   #ifdef FORCE_DEBUG
   printf("finished to run python interface\n");
   #endif
-- 
2.43.0


From c88cf13951afff70faa983714c1df99f4f60c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:57 +0000
Subject: [PATCH 17/55] fix: write nodata to polar coordinates of masked pixels

---
 src/modules/higher-level/polar-hl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/higher-level/polar-hl.c b/src/modules/higher-level/polar-hl.c
index b4db061..d23d3bd 100755
--- a/src/modules/higher-level/polar-hl.c
+++ b/src/modules/higher-level/polar-hl.c
@@ -357,6 +357,9 @@ float green_val, base_val;
           for (y=0; y<pol->ny; y++) ts->pol_[l][y][p] = nodata;
         }
       }
+      if (pol->opct){
+        for (i=0; i<ni; i++) ts->pcx_[i][p] = ts->pcy_[i][p] = nodata;
+      }
       
       if (mask_ != NULL && !mask_[p]) continue;
 
-- 
2.43.0


From a2a675cfa6bece581de9137fdb982e5f1434afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:57 +0000
Subject: [PATCH 18/55] fix: write nodata to composites of masked pixels

---
 src/modules/higher-level/level3-hl.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/level3-hl.c b/src/modules/higher-level/level3-hl.c
index a59e7a0..80aa5d9 100755
--- a/src/modules/higher-level/level3-hl.c
+++ b/src/modules/higher-level/level3-hl.c
@@ -322,7 +322,12 @@ bool water;
     for (p=0; p<nc; p++){
 
       // skip pixels that are masked
-      if (mask_ != NULL && !mask_[p]) continue;
+      if (mask_ != NULL && !mask_[p]){
+        if (l3.bap != NULL){ for (int b=0; b<nb; b++) l3.bap[b][p] = nodata;}
+        if (l3.inf != NULL){ for (int b=0; b<_INF_LENGTH_; b++) l3.inf[b][p] = nodata;}
+        if (l3.scr != NULL){ for (int b=0; b<_SCR_LENGTH_; b++) l3.scr[b][p] = nodata;}
+        continue;
+      }
       
       if (phl->bap.pac.lsp) target = compile_target_adaptive(&phl->bap, lsp, p, lsp_nodata);
 
-- 
2.43.0


From 8b6a962ba15c74fc04629f2bf05357e48ca8ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:57 +0000
Subject: [PATCH 19/55] fix: fill new product files with nodata for blocks that
 are not processed

---
 src/modules/cross-level/brick_io-cl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index 33a57fb..ad5c523 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -333,6 +333,12 @@ int write_brick(brick_t *brick){
       } else {
         if ((fp = GDALCreate(driver_create, fname, brick->nx, brick->ny, nbands, file_datatype, options)) == NULL){
           printf("Error creating file %s. ", fname); return FAILURE;}
+        // chunks, which are not written later, should be nodata
+        if (brick->open == OPEN_CHUNK && (brick->cx < brick->nx || brick->cy < brick->ny)){
+          for (b=0; b<nbands; b++){
+            GDALFillRaster(GDALGetRasterBand(fp, bands[_FILE_][f][b]), brick->nodata[bands[_brick_][f][b]], 0);
+          }
+        }
       }
         
       if (brick->open == OPEN_CHUNK){
-- 
2.43.0


From 4d898cb1f9479c467b0f6bebc3329d3f3087c18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:35:23 +0000
Subject: [PATCH 20/55] fix: weighted compositing without reflectance output
 wrote to missing image

---
 src/modules/higher-level/bap-hl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/bap-hl.c b/src/modules/higher-level/bap-hl.c
index 7504e01..5e18765 100755
--- a/src/modules/higher-level/bap-hl.c
+++ b/src/modules/higher-level/bap-hl.c
@@ -892,7 +892,9 @@ double sum_r = 0, sum_v = 0;
 
   }
 
-  for (b=0; b<nb; b++) l3->bap[b][p] = (short)sum_reflection[b];
+  if (l3->bap != NULL){
+    for (b=0; b<nb; b++) l3->bap[b][p] = (short)sum_reflection[b];
+  }
 
   free((void*)sum_reflection);
 
-- 
2.43.0


From e4893ee5c4fb7648cc767f235136dcd2d56316c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:35:23 +0000
Subject: [PATCH 21/55] fix: compositing read beyond the scores when no score
 could be computed

---
 src/modules/higher-level/bap-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/bap-hl.c b/src/modules/higher-level/bap-hl.c
index 5e18765..b954d40 100755
--- a/src/modules/higher-level/bap-hl.c
+++ b/src/modules/higher-level/bap-hl.c
@@ -734,7 +734,7 @@ double max_score = -1;
   }
 
   
-  if (n > 0){
+  if (max_t >= 0){
 
     // compositing scores
     if (l3->scr != NULL){
-- 
2.43.0


From 3cc43b0002a60b8d66dce3f651a42c86f9ec7261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:08 +0000
Subject: [PATCH 22/55] fix: refuse parameter dates with invalid month or day

---
 src/modules/cross-level/param-cl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/cross-level/param-cl.c b/src/modules/cross-level/param-cl.c
index 9d04fc1..ba7b4bf 100755
--- a/src/modules/cross-level/param-cl.c
+++ b/src/modules/cross-level/param-cl.c
@@ -1270,10 +1270,14 @@ int error = 0, n;
 
 
   if (par->length == NULL){
+    if (par->date_->month < 1 || par->date_->month > 12 || 
+        par->date_->day   < 1 || par->date_->day   > 31) error++;
     if (par->date_->ce < par->date_range[_MIN_].ce ||
         par->date_->ce > par->date_range[_MAX_].ce) error++;
   } else {
     for (n=0; n<*par->length; n++){
+      if (par->date_vec_[0][n].month < 1 || par->date_vec_[0][n].month > 12 || 
+          par->date_vec_[0][n].day   < 1 || par->date_vec_[0][n].day   > 31) error++;
       if (par->date_vec_[0][n].ce < par->date_range[_MIN_].ce ||
           par->date_vec_[0][n].ce > par->date_range[_MAX_].ce) error++;
     }
-- 
2.43.0


From 5b6b666eb05f91abb5aeac3904206030b9b80e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:13 +0000
Subject: [PATCH 23/55] fix: queue status of image paths that contain special
 characters or QUEUED

---
 bash/force-level2.sh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bash/force-level2.sh b/bash/force-level2.sh
index c065e7b..b7a24d4 100755
--- a/bash/force-level2.sh
+++ b/bash/force-level2.sh
@@ -262,8 +262,9 @@ function process_this_image(){
   fi
 
   # update queue status; queue must be locked and unlocked
+  FILE_REGEX=$(echo "$FILE_IMAGE" | sed -E 's/[][\/.*^$+?(){}|]/\\&/g')
   $LOCK_CREATE_EXE "$FILE_QUEUE"
-  sed -i.tmp -E "s+($FILE_IMAGE) .*+\1 $STATUS+" "$FILE_QUEUE"
+  sed -i.tmp -E "s/^($FILE_REGEX) .*/\1 $STATUS/" "$FILE_QUEUE"
   chmod --reference "$FILE_QUEUE.tmp" "$FILE_QUEUE"
   rm "$FILE_QUEUE.tmp"
   $LOCK_REMOVE_EXE "$FILE_QUEUE"
@@ -356,7 +357,7 @@ sed -i -E 's/^ //' "$FILE_QUEUE"
 sed -i -E 's/ $//' "$FILE_QUEUE"
 
 # get queued files
-QUEUE=$(grep 'QUEUED' "$FILE_QUEUE" | sed 's/QUEUED//g')
+QUEUE=$(grep ' QUEUED$' "$FILE_QUEUE" | sed 's/ QUEUED$//')
 
 # count input
 NUM=$(echo "$QUEUE" | wc -w)
-- 
2.43.0


From 3b8b768554335034b771faaa28498497763ac615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:13 +0000
Subject: [PATCH 24/55] fix: keep the most restrictive illumination state when
 merging quality information

---
 src/modules/cross-level/quality-cl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/cross-level/quality-cl.c b/src/modules/cross-level/quality-cl.c
index 40ba25c..28bd740 100755
--- a/src/modules/cross-level/quality-cl.c
+++ b/src/modules/cross-level/quality-cl.c
@@ -413,7 +413,7 @@ void merge_qai_from_values(brick_t *qai, int p, short qai_1, short qai_2){
 
   // Merge illumination flag
   set_illumination(qai, p, 
-    (get_illumination_from_value(qai_1) < get_illumination_from_value(qai_2)) ? 
+    (get_illumination_from_value(qai_1) > get_illumination_from_value(qai_2)) ? 
      get_illumination_from_value(qai_1) : get_illumination_from_value(qai_2));
 
   // Merge slope flag
-- 
2.43.0


From 9827eea10f512090177e6447b43c584950770767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:13 +0000
Subject: [PATCH 25/55] fix: concurrent readers could see an incomplete
 datacube definition

---
 src/modules/cross-level/cube-cl.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/modules/cross-level/cube-cl.c b/src/modules/cross-level/cube-cl.c
index 284bd43..b05f538 100755
--- a/src/modules/cross-level/cube-cl.c
+++ b/src/modules/cross-level/cube-cl.c
@@ -241,6 +241,7 @@ double tol = 5e-3;
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 int write_datacube_def(cube_t *cube){
 char *lock = NULL;
+char tmp_path[NPOW_10];
 FILE *fp = NULL;
 
   concat_string_2(cube->def_path, NPOW_10, cube->dir_path, "datacube-definition.prj", "/");
@@ -249,8 +250,11 @@ FILE *fp = NULL;
 
     if ((lock = (char*)lock_file(cube->def_path, 60)) == NULL) return FAILURE;
 
-    if ((fp = fopen(cube->def_path, "w")) == NULL){
-      printf("Unable to open %s. ", cube->def_path); return FAILURE;}
+    // write to temporary file and rename, such that readers never see an incomplete definition
+    concat_string_2(tmp_path, NPOW_10, cube->def_path, "tmp", ".");
+
+    if ((fp = fopen(tmp_path, "w")) == NULL){
+      printf("Unable to open %s. ", tmp_path); unlock_file(lock); return FAILURE;}
 
     fprintf(fp, "PROJECTION = %s\n", cube->projection);
     fprintf(fp, "ORIGIN_GEO_X = %f\n", cube->origin_geo.x);
@@ -262,6 +266,9 @@ FILE *fp = NULL;
 
     fclose(fp);
 
+    if (rename(tmp_path, cube->def_path) != 0){
+      printf("Unable to write %s. ", cube->def_path); unlock_file(lock); return FAILURE;}
+
     unlock_file(lock);
 
   }
@@ -340,6 +347,12 @@ int nrows = 0;
   copy_string(cube->dir_path, NPOW_10, d_read);
   concat_string_2(cube->def_path, NPOW_10, cube->dir_path, "datacube-definition.prj", "/");
 
+  if (!fileexist(cube->def_path)){
+    printf("Unable to open %s. ", cube->def_path);
+    free_datacube(cube);
+    return NULL;
+  }
+
   // read datacube definition
   input = read_tagvalue(cube->def_path, &nrows);
 
-- 
2.43.0


From 25f3947665b49b6573d9fb691337abf122225438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:32 +0000
Subject: [PATCH 26/55] fix: look at all bands for nodata in saturated level 1
 pixels

A pixel saturated in one band was not inspected any further, so a void
value in a later band (e.g. the thermal band) went unnoticed.
---
 src/modules/lower-level/read-ll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/lower-level/read-ll.c b/src/modules/lower-level/read-ll.c
index 846ee97..478ec25 100755
--- a/src/modules/lower-level/read-ll.c
+++ b/src/modules/lower-level/read-ll.c
@@ -196,7 +196,7 @@ int tvalid = 0;
         if (b != b_cirrus && dn_[b][p] == 0){ off_[p] = true; break;}
 
         // if any (non-temp) layer saturated
-        if (b != b_temp && dn_[b][p] >= meta->sat){ set_saturation(qai, p, true); break;}
+        if (b != b_temp && dn_[b][p] >= meta->sat) set_saturation(qai, p, true);
 
         // if temperature has any non-0 value
         if (b == b_temp) tvalid++;
-- 
2.43.0


From 06f01b254e96743148352c0d9be64e0ef02530f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:32 +0000
Subject: [PATCH 27/55] fix: limit TOA reflectance to the range of the data
 type

Very bright pixels overflowed the 16bit integer and became negative or
nodata.
---
 src/modules/lower-level/read-ll.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/modules/lower-level/read-ll.c b/src/modules/lower-level/read-ll.c
index 478ec25..93fe00b 100755
--- a/src/modules/lower-level/read-ll.c
+++ b/src/modules/lower-level/read-ll.c
@@ -397,11 +397,14 @@ float dn_scale, toa_scale;
       dn_scale  = get_brick_scale(DN,  b);
       toa_scale = get_brick_scale(TOA, b);
       
-      #pragma omp parallel shared(b, nc, dn_scale, toa_scale, dn_, toa_, meta) default(none) 
+      #pragma omp parallel private(tmp) shared(b, nc, dn_scale, toa_scale, dn_, toa_, meta) default(none) 
       {
 
         #pragma omp for schedule(static)
-        for (p=0; p<nc; p++) toa_[b][p] = (dn_[b][p] + meta->cal[b].radd) / dn_scale*toa_scale;
+        for (p=0; p<nc; p++){
+          tmp = (dn_[b][p] + meta->cal[b].radd) / dn_scale*toa_scale;
+          if (tmp < SHRT_MAX) toa_[b][p] = (short)tmp; else toa_[b][p] = SHRT_MAX;
+        }
         
       }
 
@@ -461,8 +464,10 @@ float dn_scale, toa_scale;
                 toa_[b][p] = (short)nodata;
                 set_off(QAI, p, true);
               }
-            } else {
+            } else if (tmp*toa_scale < SHRT_MAX){
               toa_[b][p] = (short)(tmp*toa_scale);
+            } else {
+              toa_[b][p] = SHRT_MAX;
             }
 
           }
-- 
2.43.0


From 134ab2ea77f9d537edce25d3e9c8fcaa0c4b0e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:32 +0000
Subject: [PATCH 28/55] fix: buffer pixels close to the image border

Pixels closer to the border than the buffer radius were dropped from the
buffered image instead of being buffered up to the border.
---
 src/modules/cross-level/imagefuns-cl.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/modules/cross-level/imagefuns-cl.c b/src/modules/cross-level/imagefuns-cl.c
index e14132f..b2e0233 100755
--- a/src/modules/cross-level/imagefuns-cl.c
+++ b/src/modules/cross-level/imagefuns-cl.c
@@ -160,15 +160,14 @@ small *tmp = NULL;
 
   alloc((void**)&tmp, nc, sizeof(small));
 
-  // do for every pixel, except boundary
-  // boundary width is determined by buffer radius
+  // do for every pixel, clip the buffer at the image boundary
 
   #pragma omp parallel private(j, p, k, x, y, d) shared(nx, ny, r, image, tmp) default(none) 
   {
 
     #pragma omp for schedule(guided)
-    for (i=r; i<(ny-r); i++){
-    for (j=r; j<(nx-r); j++){
+    for (i=0; i<ny; i++){
+    for (j=0; j<nx; j++){
 
       p = nx*i+j;
 
@@ -182,8 +181,16 @@ small *tmp = NULL;
       while (x <= y){
 
         // draw buffer with radius around point
-        for (k=i-y; k<=i+y; k++){ tmp[nx*k+j+x] = true; tmp[nx*k+j-x] = true; }
-        for (k=i-x; k<=i+x; k++){ tmp[nx*k+j+y] = true; tmp[nx*k+j-y] = true; }
+        for (k=i-y; k<=i+y; k++){
+          if (k < 0 || k >= ny) continue;
+          if (j+x < nx) tmp[nx*k+j+x] = true;
+          if (j-x >= 0) tmp[nx*k+j-x] = true;
+        }
+        for (k=i-x; k<=i+x; k++){
+          if (k < 0 || k >= ny) continue;
+          if (j+y < nx) tmp[nx*k+j+y] = true;
+          if (j-y >= 0) tmp[nx*k+j-y] = true;
+        }
 
         if (d < 0){
           d = d + (4 * x) + 6;
-- 
2.43.0


From 7e79c9fe800b85d642a592fc1afc0743565ef9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:32 +0000
Subject: [PATCH 29/55] fix: use both bands for the shadow probability with any
 number of threads

The minimum was taken once per thread, hence only the last band counted
if one thread processed both bands.
---
 src/modules/lower-level/cloud-ll.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/modules/lower-level/cloud-ll.c b/src/modules/lower-level/cloud-ll.c
index 83f484d..9e69233 100755
--- a/src/modules/lower-level/cloud-ll.c
+++ b/src/modules/lower-level/cloud-ll.c
@@ -843,13 +843,14 @@ char domains[2][NPOW_10] = { "NIR", "SWIR1" };
       greyscale_reconstruction_(mask_, marker_, nx, ny);
       for (p=0; p<nc; p++) marker_[p]  -= mask_[p];
 
-    }
-
-    #pragma omp critical
-    {
-      for (p=0; p<nc; p++){
-        if (marker_[p] < spr_[p]) spr_[p] = marker_[p];
+      // minimum of both bands
+      #pragma omp critical
+      {
+        for (p=0; p<nc; p++){
+          if (marker_[p] < spr_[p]) spr_[p] = marker_[p];
+        }
       }
+
     }
 
     free((void*)mask_);
-- 
2.43.0


From 45a30162b9a92ea447c5aa78bbf148cc572bc38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:32 +0000
Subject: [PATCH 30/55] fix: do not count nodata pixels as clouds in the scene
 cloud cover

---
 src/modules/lower-level/cloud-ll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/lower-level/cloud-ll.c b/src/modules/lower-level/cloud-ll.c
index 9e69233..04c02dc 100755
--- a/src/modules/lower-level/cloud-ll.c
+++ b/src/modules/lower-level/cloud-ll.c
@@ -720,7 +720,7 @@ small *cld_  = NULL;
     #pragma omp for
     for (p=0; p<nc; p++){
       //if (get_snow(QAI, p)) cld_[p] = false;
-      if (cld_[p]) ncld++;
+      if (cld_[p] && !get_off(QAI, p)) ncld++;
     }
 
   }
-- 
2.43.0


From 416f45f9b70fbd948fce83f9daed223424cc0045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:33 +0000
Subject: [PATCH 31/55] fix: regression-based resolution merge reads original
 values only

The prediction was written into the image the moving kernel was reading
from, so the result depended on the order and number of threads.
---
 src/modules/lower-level/resmerge-ll.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/modules/lower-level/resmerge-ll.c b/src/modules/lower-level/resmerge-ll.c
index 89a3ab7..8fcb9cb 100755
--- a/src/modules/lower-level/resmerge-ll.c
+++ b/src/modules/lower-level/resmerge-ll.c
@@ -90,13 +90,14 @@ float *starfm(int nx, int ny, brick_t *QAI, float **coarse, float **fine, int r)
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 int resolution_merge_1(brick_t *TOA, brick_t *QAI){
 int b = 0, nb = 6, bands[6], green, red, bnir;
-int i, j, p, ii, jj, ni, nj, np, nx, ny;
+int i, j, p, ii, jj, ni, nj, np, nx, ny, nc;
 int r = 2, w, nw, k, nv = 4;
 gsl_matrix *X, **cov;
 gsl_vector *x, **y, **c;
 gsl_multifit_linear_workspace **work;
 double chisq, est, err;
-short **toa_ = NULL;
+short **toa_  = NULL;
+short **pred_ = NULL;
 
 
   #ifdef FORCE_CLOCK
@@ -106,6 +107,7 @@ short **toa_ = NULL;
   
   nx  = get_brick_ncols(QAI);
   ny  = get_brick_nrows(QAI);
+  nc  = get_brick_ncells(QAI);
 
   if ((toa_ = get_bands_short(TOA)) == NULL) return FAILURE;
 
@@ -123,8 +125,11 @@ short **toa_ = NULL;
   // kernel size
   w = r*2+1; nw = w*w;
 
+  // the kernel needs the original values, keep prediction separate
+  alloc_2D((void***)&pred_, nb, nc, sizeof(short));
+
 
-  #pragma omp parallel private(k,b,j,p,ii,jj,ni,nj,np,X,x,y,c,cov,work,chisq,est,err) shared(r,w,nb,nw,nv,ny,nx,QAI,toa_,bands,green,red,bnir) default(none)
+  #pragma omp parallel private(k,b,j,p,ii,jj,ni,nj,np,X,x,y,c,cov,work,chisq,est,err) shared(r,w,nb,nw,nv,ny,nx,QAI,toa_,pred_,bands,green,red,bnir) default(none)
   {
 
     /** initialize and allocate
@@ -208,7 +213,7 @@ short **toa_ = NULL;
 
         gsl_multifit_linear(X, y[b], c[b], cov[b], &chisq, work[b]);
         gsl_multifit_linear_est(x, c[b], cov[b], &est, &err);
-        toa_[bands[b]][p] = (short)(est*10000);
+        pred_[b][p] = (short)(est*10000);
 
       }
 
@@ -228,6 +233,14 @@ short **toa_ = NULL;
 
   }
 
+  // update toa with prediction
+  for (p=0; p<nc; p++){
+    if (get_off(QAI, p) || get_cloud(QAI, p) > 0 || get_shadow(QAI, p)) continue;
+    for (b=0; b<nb; b++) toa_[bands[b]][p] = pred_[b][p];
+  }
+
+  free_2D((void**)pred_, nb);
+
   #ifdef FORCE_DEBUG
   set_brick_filename(TOA, "TOA-RESMERGED");
   print_brick_info(TOA); set_brick_open(TOA, OPEN_CREATE); write_brick(TOA);
-- 
2.43.0


From 4e2d83eb3abd5153f40850d82398d96d40cc0565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:17:08 +0000
Subject: [PATCH 32/55] fix: near-real-time residuals of pixels without a
 harmonic fit are nodata

Pixels that are masked or have too few observations got 0, the initial
value of the image, which reads as a perfect match with the fit.
---
 src/modules/higher-level/interpolate-hl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/higher-level/interpolate-hl.c b/src/modules/higher-level/interpolate-hl.c
index 9296e96..e7211ed 100755
--- a/src/modules/higher-level/interpolate-hl.c
+++ b/src/modules/higher-level/interpolate-hl.c
@@ -534,6 +534,7 @@ bool model_terms[_TERM_LEN_];
 
       if (mask_ != NULL && !mask_[p]){
         for (i=0; i<ni; i++) ts->tsi_[i][p] = nodata;
+        if (tsi->onrt) for (i=0; i<nr; i++) ts->nrt_[i][p] = nodata;
         continue;
       }
 
@@ -552,6 +553,7 @@ bool model_terms[_TERM_LEN_];
       //if (nk == 0){
       if (nk < n_coef){
         for (i=0; i<ni; i++) ts->tsi_[i][p] = nodata;
+        if (tsi->onrt) for (i=0; i<nr; i++) ts->nrt_[i][p] = nodata;
         continue;
       }
 
-- 
2.43.0


From 9219fa6f8b336f3add36fcdbfb91d7ecd1a706e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:17:08 +0000
Subject: [PATCH 33/55] fix: classification margin when two classes have the
 same probability

The second best probability was searched among the values smaller than
the best one. With a tie for the best class, the margin was the
difference to the third class instead of 0.
---
 src/modules/higher-level/ml-hl.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/modules/higher-level/ml-hl.c b/src/modules/higher-level/ml-hl.c
index 3fd44eb..9caf12a 100755
--- a/src/modules/higher-level/ml-hl.c
+++ b/src/modules/higher-level/ml-hl.c
@@ -382,10 +382,12 @@ bool valid;
           if (ml.rfm_ != NULL){
             max_prob = max2_prob  = 0;
             for (c=0; c<phl->mcl.nclass[s]; c++){
-              if (mean_prob[c] > max_prob) max_prob = mean_prob[c];
-            }
-            for (c=0; c<phl->mcl.nclass[s]; c++){
-              if (mean_prob[c] > max2_prob && mean_prob[c] < max_prob) max2_prob = mean_prob[c];
+              if ((int)mean_prob[c] > max_prob){
+                max2_prob = max_prob;
+                max_prob  = mean_prob[c];
+              } else if ((int)mean_prob[c] > max2_prob){
+                max2_prob = mean_prob[c];
+              }
             }
             ml.rfm_[s][p] = max_prob-max2_prob;
           }
-- 
2.43.0


From f62e8463042ac862dc5a46bf227ae7b7b3d80a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:17:08 +0000
Subject: [PATCH 34/55] fix: the change penalty selects the largest penalised
 change

The penalised change of a period was compared with the unpenalised
change of the best period so far, such that an early large change hid
later changes with a larger penalised magnitude.
---
 src/modules/higher-level/trend-hl.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/modules/higher-level/trend-hl.c b/src/modules/higher-level/trend-hl.c
index b64ecb7..62e08d9 100755
--- a/src/modules/higher-level/trend-hl.c
+++ b/src/modules/higher-level/trend-hl.c
@@ -218,7 +218,7 @@ double mae, rmse;
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 int cat(short **fld_, date_t *d_fld, small *mask_, int nc, int nf, short **cat_, short nodata, int by, bool in_ce, par_trd_t *trd){
 int p, f, f_pre, f_post, f_change, f_min[3], f_max[3], f_len[3];
-float change, change_now, change_real;
+float change, change_max, change_now, change_real;
 int x, b, part, sig;
 double mx, my, vx, vy, cv, k;
 double off, slp, rsq, yhat;
@@ -231,7 +231,7 @@ double mae, rmse;
   if (cat_ == NULL) return CANCEL;
 
 
-  #pragma omp parallel private(b,part,f,f_pre,f_post,f_change,f_min,f_max,f_len,change,change_now,change_real,x,mx,my,vx,vy,cv,k,ssqe,sae,sxsq,maxe,seb,mae,rmse,off,slp,rsq,yhat,e,sig) shared(mask_,fld_,d_fld,cat_,nc,nf,by,nodata,in_ce,trd) default(none)
+  #pragma omp parallel private(b,part,f,f_pre,f_post,f_change,f_min,f_max,f_len,change,change_max,change_now,change_real,x,mx,my,vx,vy,cv,k,ssqe,sae,sxsq,maxe,seb,mae,rmse,off,slp,rsq,yhat,e,sig) shared(mask_,fld_,d_fld,cat_,nc,nf,by,nodata,in_ce,trd) default(none)
   {
 
     #pragma omp for
@@ -244,7 +244,7 @@ double mae, rmse;
 
 
       f_change = 0;
-      change = SHRT_MIN;
+      change = change_max = SHRT_MIN;
 
       // find largest change
       for (f=1; f<nf; f++){
@@ -267,7 +267,8 @@ double mae, rmse;
 
         }
 
-        if (change_now > change){
+        if (change_now > change_max){
+          change_max = change_now;
           change = change_real;
           f_change = f;
         }
-- 
2.43.0


From e2aec5fb9696a1596f9c089a1bee1967d58094cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:19:16 +0000
Subject: [PATCH 35/55] fix: noise screening of observations between two
 observations of the same day

The residual was taken to half of the difference of the bracketing values
instead of to their mean.
---
 src/modules/higher-level/quality-hl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/quality-hl.c b/src/modules/higher-level/quality-hl.c
index 93f5b2d..57adbea 100755
--- a/src/modules/higher-level/quality-hl.c
+++ b/src/modules/higher-level/quality-hl.c
@@ -257,7 +257,7 @@ small *mask_ = NULL;
 
           if (ce[t_right] == ce[t_left]){
             y_hat = fabs(ard[t_mid].dat[b][p] - 
-                        (ard[t_right].dat[b][p]-ard[t_left].dat[b][p]) / 2.0);
+                        (ard[t_right].dat[b][p]+ard[t_left].dat[b][p]) / 2.0);
           } else {
             y_hat = fabs(ard[t_mid].dat[b][p] - 
                         (ard[t_right].dat[b][p]-ard[t_left].dat[b][p]) / 
@@ -337,7 +337,7 @@ small *mask_ = NULL;
 
         if (ce[t_right] == ce[t_left]){
           y_hat = fabs(ard[t_mid].dat[b][p] - 
-                      (ard[t_right].dat[b][p]-ard[t_left].dat[b][p]) / 2.0);
+                      (ard[t_right].dat[b][p]+ard[t_left].dat[b][p]) / 2.0);
         } else {
           y_hat = fabs(ard[t_mid].dat[b][p] - 
                       (ard[t_right].dat[b][p]-ard[t_left].dat[b][p]) / 
-- 
2.43.0


From 7c6b6505b5829d9707a28dd5ba74592b645ac70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:19:16 +0000
Subject: [PATCH 36/55] fix: noise screening interpolates with the full slope

The slope between the bracketing observations was an integer division of
reflectance by days, such that slow changes were interpolated as constant
and faster ones too flat.
---
 src/modules/higher-level/quality-hl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/quality-hl.c b/src/modules/higher-level/quality-hl.c
index 57adbea..460c1b7 100755
--- a/src/modules/higher-level/quality-hl.c
+++ b/src/modules/higher-level/quality-hl.c
@@ -261,7 +261,7 @@ small *mask_ = NULL;
           } else {
             y_hat = fabs(ard[t_mid].dat[b][p] - 
                         (ard[t_right].dat[b][p]-ard[t_left].dat[b][p]) / 
-                        (ce[t_right]-ce[t_left]) * (ce[t_mid]-ce[t_left]) - 
+                        (float)(ce[t_right]-ce[t_left]) * (ce[t_mid]-ce[t_left]) - 
                         ard[t_left].dat[b][p]);
           }
           t_max = t_mid;
@@ -341,7 +341,7 @@ small *mask_ = NULL;
         } else {
           y_hat = fabs(ard[t_mid].dat[b][p] - 
                       (ard[t_right].dat[b][p]-ard[t_left].dat[b][p]) / 
-                      (ce[t_right]-ce[t_left]) * (ce[t_mid]-ce[t_left]) - 
+                      (float)(ce[t_right]-ce[t_left]) * (ce[t_mid]-ce[t_left]) - 
                       ard[t_left].dat[b][p]);
         }
 
-- 
2.43.0


From 3453845202e9f35a92259c9e72dc2932241df584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:06 +0000
Subject: [PATCH 37/55] fix: create lock files exclusively, so that only one
 process can hold a lock

---
 src/modules/cross-level/brick_io-cl.cpp | 12 ++++----
 src/modules/cross-level/lock-cl.c       | 39 ++++++++++++++++++++++---
 src/modules/cross-level/lock-cl.h       |  2 +-
 src/modules/higher-level/tasks-hl.c     |  4 +--
 src/modules/lower-level/aod-ll.c        |  4 +--
 src/modules/lower-level/aod-ll.h        |  1 +
 6 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index ad5c523..3e312db 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -221,11 +221,11 @@ int write_brick(brick_t *brick){
   
   
     // output path
-    if ((lock = (char*)CPLLockFile(brick->dname.string, 60)) == NULL){
+    if ((lock = lock_file(brick->dname.string, 60)) == NULL){
       printf("Unable to lock directory %s (timeout: %ds). ", brick->dname.string, 60);
       return FAILURE;}
     createdir(brick->dname.string);
-    CPLUnlockFile(lock);
+    unlock_file(lock);
     lock = NULL;
   
     // provenance file
@@ -251,7 +251,7 @@ int write_brick(brick_t *brick){
   
       timeout = lock_timeout(get_brick_size(brick));
   
-      if ((lock = (char*)CPLLockFile(fname, timeout)) == NULL){
+      if ((lock = lock_file(fname, timeout)) == NULL){
         printf("Unable to lock file %s (timeout: %fs, nx/ny: %d/%d). ", fname, timeout, brick->nx, brick->ny);
         return FAILURE;}
   
@@ -471,14 +471,14 @@ int write_brick(brick_t *brick){
       GDALClose(fp);
   
     
-      CPLUnlockFile(lock);
+      unlock_file(lock);
     
       // write provenance info
       if (brick->provenance.number > 0 && 
           brick->chunk[_X_] <= 0 && 
           brick->chunk[_Y_] <= 0){
   
-        if ((lock = (char*)CPLLockFile(provname, timeout)) == NULL){
+        if ((lock = lock_file(provname, timeout)) == NULL){
           printf("Unable to lock file %s (timeout: %fs). ", provname, timeout);
           return FAILURE;}
   
@@ -507,7 +507,7 @@ int write_brick(brick_t *brick){
 
         fclose(fprov);
   
-        CPLUnlockFile(lock);
+        unlock_file(lock);
   
       }
     
diff --git a/src/modules/cross-level/lock-cl.c b/src/modules/cross-level/lock-cl.c
index 34eb795..e64d611 100755
--- a/src/modules/cross-level/lock-cl.c
+++ b/src/modules/cross-level/lock-cl.c
@@ -27,22 +27,49 @@ This file contains a public interface for locking files
 
 #include "lock-cl.h"
 
+#include <errno.h>  // error numbers
+#include <fcntl.h>  // file control options
+#include <string.h> // string handling functions
+#include <unistd.h> // standard symbolic constants and types
+
 /** Geospatial Data Abstraction Library (GDAL) **/
 #include "cpl_multiproc.h" // CPL Multi-Threading
 
+#include "../cross-level/alloc-cl.h"
+
 
 /** Lock a file
++++ The lockfile is created exclusively, i.e. testing for and creating the
++++ lockfile is one operation. CPLLockFile does this in two steps, such that
++++ two processes might get hold of the same lock.
 --- fname:   filename
 --- timeout: try to lock the file for a maximum time of x seconds
 +++ Return:  filename of lockfile
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
-char *lock_file(char *fname, int timeout){
+char *lock_file(char *fname, double timeout){
 char *lock = NULL;
+size_t size = strlen(fname)+6;
+double wait = timeout;
+int fd;
+
+  alloc((void**)&lock, size, sizeof(char));
+  snprintf(lock, size, "%s.lock", fname);
+
+  while ((fd = open(lock, O_WRONLY | O_CREAT | O_EXCL, 0666)) < 0){
+
+    if (errno != EEXIST || wait <= 0){
+      printf("Unable to lock file (timeout: %.0fs): %s\n", timeout, fname);
+      free((void*)lock);
+      return NULL;
+    }
+
+    CPLSleep(wait < 0.5 ? wait : 0.5);
+    wait -= 0.5;
 
-  if ((lock = (char*)CPLLockFile(fname, timeout)) == NULL){
-    printf("Unable to lock file (timeout: %ds): %s\n", timeout, fname); 
   }
 
+  close(fd);
+
   return lock;
 }
 
@@ -53,7 +80,11 @@ char *lock = NULL;
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 void unlock_file(char *lock){
 
-  CPLUnlockFile(lock);
+  if (lock == NULL) return;
+
+  unlink(lock);
+  free((void*)lock);
+
   return;
 }
 
diff --git a/src/modules/cross-level/lock-cl.h b/src/modules/cross-level/lock-cl.h
index 5b64f4c..ed9c3c3 100755
--- a/src/modules/cross-level/lock-cl.h
+++ b/src/modules/cross-level/lock-cl.h
@@ -36,7 +36,7 @@ Lockfiles header
 extern "C" {
 #endif
 
-char *lock_file(char *fname, int timeout);
+char *lock_file(char *fname, double timeout);
 void unlock_file(char *lock);
 double lock_timeout(size_t bytes);
 
diff --git a/src/modules/higher-level/tasks-hl.c b/src/modules/higher-level/tasks-hl.c
index 97e344b..8d278ab 100755
--- a/src/modules/higher-level/tasks-hl.c
+++ b/src/modules/higher-level/tasks-hl.c
@@ -275,7 +275,7 @@ int o;
   if (nchar < 0 || nchar >= NPOW_10){ 
     printf("Buffer Overflow in assembling filename\n"); exit(1);}
 
-  if ((lock = (char*)CPLLockFile(dname, 60)) == NULL){
+  if ((lock = lock_file(dname, 60)) == NULL){
     printf("Unable to lock directory %s (timeout: %ds). ", dname, 60);
     error = true;
   }
@@ -283,7 +283,7 @@ int o;
   if (!error){
 
     createdir(dname);
-    CPLUnlockFile(lock);
+    unlock_file(lock);
     lock = NULL;
 
     omp_set_num_threads(phl->othread);
diff --git a/src/modules/lower-level/aod-ll.c b/src/modules/lower-level/aod-ll.c
index f6d3702..feb4bc0 100755
--- a/src/modules/lower-level/aod-ll.c
+++ b/src/modules/lower-level/aod-ll.c
@@ -617,7 +617,7 @@ FILE *fp = NULL;
   if (nchar < 0 || nchar >= NPOW_10){ 
     printf("Buffer Overflow in assembling filename\n"); exit(1);}
 
-  if ((lock = (char*)CPLLockFile(fname, 60)) == NULL){
+  if ((lock = lock_file(fname, 60)) == NULL){
     printf("Unable to lock %s (timeout: %ds).\n", fname, 60);
     return;}
 
@@ -635,7 +635,7 @@ FILE *fp = NULL;
   fprintf(fp, "   Rsq %01.2f, spec # %d, fit # %d\n\n", dobj[o].rsq, dobj[o].lib_id, dobj[o].ang_fit);
   
   fclose(fp);
-  CPLUnlockFile(lock);
+  unlock_file(lock);
 
   return;
 }
diff --git a/src/modules/lower-level/aod-ll.h b/src/modules/lower-level/aod-ll.h
index bd866c1..8729c61 100755
--- a/src/modules/lower-level/aod-ll.h
+++ b/src/modules/lower-level/aod-ll.h
@@ -34,6 +34,7 @@ Aerosol Optical Depth header
 #include "../cross-level/const-cl.h"
 #include "../cross-level/brick_base-cl.h"
 #include "../cross-level/imagefuns-cl.h"
+#include "../cross-level/lock-cl.h"
 #include "../lower-level/param-ll.h"
 #include "../lower-level/meta-ll.h"
 #include "../lower-level/atc-ll.h"
-- 
2.43.0


From 0bf2be5513ee253fcd0e9c511bb1972680b87fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:06 +0000
Subject: [PATCH 38/55] fix: do not fail if another process creates the
 directory at the same time

---
 src/modules/cross-level/dir-cl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/cross-level/dir-cl.c b/src/modules/cross-level/dir-cl.c
index b6bfc5f..ac5e9a2 100755
--- a/src/modules/cross-level/dir-cl.c
+++ b/src/modules/cross-level/dir-cl.c
@@ -179,7 +179,7 @@ struct stat sb;
 
   if ((e = stat(dir_path, &sb)) != 0){
     if (errno == ENOENT){
-      if ((e = mkdir(dir_path, S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH)) != 0){
+      if ((e = mkdir(dir_path, S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH)) != 0 && errno != EEXIST){
         printf("mkdir failed\n"); exit(1);}
     }
   }
-- 
2.43.0


From 5f3b57df31d40b162932fe9af18b5acc727daea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:06 +0000
Subject: [PATCH 39/55] fix: flush the nodata fill before writing a block, for
 formats written without block cache

---
 src/modules/cross-level/brick_io-cl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index 3e312db..53232a2 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -337,6 +337,7 @@ int write_brick(brick_t *brick){
         if (brick->open == OPEN_CHUNK && (brick->cx < brick->nx || brick->cy < brick->ny)){
           for (b=0; b<nbands; b++){
             GDALFillRaster(GDALGetRasterBand(fp, bands[_FILE_][f][b]), brick->nodata[bands[_brick_][f][b]], 0);
+            GDALFlushRasterCache(GDALGetRasterBand(fp, bands[_FILE_][f][b]));
           }
         }
       }
-- 
2.43.0


From ce903acade8703822a85e872a4dd94509ee3176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:01:06 +0000
Subject: [PATCH 40/55] fix: start R with --no-save, so that R code also runs
 without a terminal

---
 src/modules/higher-level/r-udf-hl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/r-udf-hl.c b/src/modules/higher-level/r-udf-hl.c
index 91ea552..18fc355 100644
--- a/src/modules/higher-level/r-udf-hl.c
+++ b/src/modules/higher-level/r-udf-hl.c
@@ -113,8 +113,8 @@ int i;
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 void register_rstats(par_hl_t *phl){
 par_udf_t *udf;
-int r_argc = 2;
-char *r_argv[] = { "R", "--silent" };
+int r_argc = 3;
+char *r_argv[] = { "R", "--silent", "--no-save" };
 
 
   #ifdef FORCE_DEBUG
-- 
2.43.0


From 9f8b6812f2ec4040ad6c9a77a03056fd8c63c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:01:24 +0000
Subject: [PATCH 41/55] fix: hand blocks to R code as documented, rows before
 columns

---
 src/modules/higher-level/r-udf-hl.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/modules/higher-level/r-udf-hl.c b/src/modules/higher-level/r-udf-hl.c
index 18fc355..e293556 100644
--- a/src/modules/higher-level/r-udf-hl.c
+++ b/src/modules/higher-level/r-udf-hl.c
@@ -498,14 +498,16 @@ int *rstats_return_ = NULL;
   UNPROTECT(1); // dim
   array_ = INTEGER(array);
 
-  // copy C data to R objects
+  // copy C data to R objects, columns are the slowest dimension in R
 
   k = 0;
 
-  for (int p = 0; p < nc; p++){
+  for (int x = 0; x < nx; x++){
+  for (int y = 0; y < ny; y++){
   for (int b = 0; b < (nb_main + nb_aux); b++){
   for (int t = 0; t < nt; t++){
 
+    int p = y*nx + x;
     int value = nodata;
 
     if (mask_ != NULL && !mask_[p]){
@@ -527,6 +529,7 @@ int *rstats_return_ = NULL;
   }
   }
   }
+  }
 
 
   // fire up R
@@ -537,9 +540,11 @@ int *rstats_return_ = NULL;
 
   k =  0;
 
-  for (int p = 0; p < nc; p++){
+  for (int x = 0; x < nx; x++){
+  for (int y = 0; y < ny; y++){
   for (int b = 0; b < udf->nb; b++){
 
+    int p = y*nx + x;
     int value = nodata;
 
     if (udf->type == _UDF_CHUNK_ ||
@@ -556,6 +561,7 @@ int *rstats_return_ = NULL;
 
   }
   }
+  }
 
   UNPROTECT(2); // array, rstats_return
 
-- 
2.43.0


From c6c93354519016d22ac02f3db08945bdba5c67b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:20:01 +0000
Subject: [PATCH 42/55] fix: keep nodata pixels of stacked images nodata

---
 src/main/aux-level/force-stack.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/aux-level/force-stack.c b/src/main/aux-level/force-stack.c
index 114b742..bb0c71c 100755
--- a/src/main/aux-level/force-stack.c
+++ b/src/main/aux-level/force-stack.c
@@ -157,7 +157,7 @@ int f, nf;
 int b, nb;
 int k;
 int nx = 0, ny = 0;
-int nodata;
+int nodata, has_nodata;
 GDALDriverH     driver = NULL;
 GDALDatasetH    src    = NULL;
 GDALDatasetH    dst    = NULL;
@@ -304,11 +304,12 @@ enum { _BYFILE_, _BYBAND_, _INTERLEN_ };
     bsrc = GDALGetRasterBand(src, out[b].b);
     bmeta = GDALGetMetadata(bsrc, "FORCE");
     bname = GDALGetDescription(bsrc);
-    nodata = (int)GDALGetRasterNoDataValue(bsrc, NULL);
+    nodata = (int)GDALGetRasterNoDataValue(bsrc, &has_nodata);
 
     // add new band
     GDALAddBand(dst, GDT_Int16, NULL);
     bdst = GDALGetRasterBand(dst, GDALGetRasterCount(dst));
+    if (has_nodata) GDALSetRasterNoDataValue(bdst, nodata);
 
     // set source
     sprintf(source,
-- 
2.43.0


From 33b68413d8cacb6fe25a1a997ea7119241f4901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:20:01 +0000
Subject: [PATCH 43/55] fix: replace variables that have a single value by the
 value without braces

---
 bash/force-magic-parameters.sh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bash/force-magic-parameters.sh b/bash/force-magic-parameters.sh
index 6428533..a417230 100755
--- a/bash/force-magic-parameters.sh
+++ b/bash/force-magic-parameters.sh
@@ -128,6 +128,8 @@ if [ "$COMB" = "all" ]; then
   for k in $KEYS; do
     VALUES={$(grep "%$k%:" $FINP | sed 's/^.*%: //' | tr -s ' ' | sed 's/^ //' | sed 's/ /,/g' )}
     #echo $VALUES
+    # braces of a single value are not expanded
+    if [[ "$VALUES" != *,* && "$VALUES" != *..* ]]; then VALUES=${VALUES:1:-1}; fi
     combis="$combis%$VALUES"
     #echo $combis
   done
-- 
2.43.0


From aa50fa29661ef13ae90e0546ac667cdc7acc77f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:26:25 +0000
Subject: [PATCH 44/55] fix: unmixing residuals of pixels outside the
 processing mask are nodata

---
 src/modules/higher-level/index-compute-hl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/index-compute-hl.c b/src/modules/higher-level/index-compute-hl.c
index 32de512..146ce02 100755
--- a/src/modules/higher-level/index-compute-hl.c
+++ b/src/modules/higher-level/index-compute-hl.c
@@ -575,7 +575,10 @@ gsl_vector *a   =  NULL;
     for (p=0; p<nc; p++){
 
       if (mask_ != NULL && !mask_[p]){
-        for (t=0; t<nt; t++) ts->tss_[t][p] = nodata;
+        for (t=0; t<nt; t++){
+          ts->tss_[t][p] = nodata;
+          if (sma->orms) ts->rms_[t][p] = nodata;
+        }
         continue;
       }
       
-- 
2.43.0


From f6b0cde84319138706fe36960ccb72fd65b9c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:29:38 +0000
Subject: [PATCH 45/55] fix: write mosaics to the documented default directory

---
 bash/force-mosaic.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bash/force-mosaic.sh b/bash/force-mosaic.sh
index cc943d6..db16098 100755
--- a/bash/force-mosaic.sh
+++ b/bash/force-mosaic.sh
@@ -178,7 +178,7 @@ dir_not_found "$FINP"
 
 # output directory for mosaics
 if [ -z "$MOSAIC" ]; then
-  DOUT="$FINP/$MOSAIC"
+  DOUT="$FINP/mosaic"
 else 
   DOUT="$MOSAIC"
 fi
-- 
2.43.0


From 35b058b3519db0f155044df099cb7d4c5e0174c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:29:38 +0000
Subject: [PATCH 46/55] fix: find the tiles when the mosaic directory is a
 relative path

---
 bash/force-mosaic.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bash/force-mosaic.sh b/bash/force-mosaic.sh
index db16098..43351c2 100755
--- a/bash/force-mosaic.sh
+++ b/bash/force-mosaic.sh
@@ -203,7 +203,7 @@ cd "$DOUT" || exit 1
 # main thing -----------------------------------------------------------------------------
 
 # retrieve relative path from output directory to datacube directory
-ROUT=$(perl -e 'use File::Spec; print File::Spec->abs2rel(@ARGV) . "\n"' "$FINP" "$DOUT")
+ROUT=$(perl -e 'use File::Spec; print File::Spec->abs2rel(@ARGV) . "\n"' "$FINP" "$PWD")
 export ROUT
 
 debug "output directory: $DOUT"
-- 
2.43.0


From aef25e657d719f62d26099085237ede2723146b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:29:38 +0000
Subject: [PATCH 47/55] fix: mosaic only the chips that have the name of the
 product

---
 bash/force-mosaic.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bash/force-mosaic.sh b/bash/force-mosaic.sh
index 43351c2..c2aa9a7 100755
--- a/bash/force-mosaic.sh
+++ b/bash/force-mosaic.sh
@@ -80,7 +80,7 @@ function mosaic_this(){
   debug "output name: $ONAME"
 
   # file list
-  grep "$prd" force-mosaic_all-files.txt 1> "$LIST" 2> /dev/null
+  grep "/${prd//./\\.}$" force-mosaic_all-files.txt 1> "$LIST" 2> /dev/null
 
   # file list exists?
   if [ ! -f "$LIST" ]; then
-- 
2.43.0


From fdcc7c97112d3976da73e641a6f50064d085d6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:34:21 +0000
Subject: [PATCH 48/55] fix: accept the output format of stratified samples

---
 src/main/aux-level/force-stratified-sample.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/aux-level/force-stratified-sample.c b/src/main/aux-level/force-stratified-sample.c
index 46f1901..79b2a9f 100644
--- a/src/main/aux-level/force-stratified-sample.c
+++ b/src/main/aux-level/force-stratified-sample.c
@@ -115,6 +115,7 @@ bool o, f;
         exit(SUCCESS);
       case 'o':
         copy_string(args->file_output, NPOW_10, optarg);
+        o = true;
         break;
       case 'f':
         copy_string(args->format, NPOW_10, optarg);
@@ -161,7 +162,7 @@ bool o, f;
     usage(argv[0], FAILURE);
   }
 
-  if ((!o && f) || (!f && o)){
+  if (!o && f){
     fprintf(stderr, "If -f is given, -o need to be given, too.\n"); usage(argv[0], FAILURE);
   }
 
-- 
2.43.0


From d5a015e7be31dbb050432e3ef563e12b5711db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:35:29 +0000
Subject: [PATCH 49/55] fix: do not sample classes that are not in the sample
 size table

---
 src/main/aux-level/force-stratified-sample.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/aux-level/force-stratified-sample.c b/src/main/aux-level/force-stratified-sample.c
index 79b2a9f..ba41cc3 100644
--- a/src/main/aux-level/force-stratified-sample.c
+++ b/src/main/aux-level/force-stratified-sample.c
@@ -292,6 +292,7 @@ OGRGeometryH point;
     for (j=0; j<nx; j++){
 
       if (line[j] == nodata) continue;
+      if (dictionary[line[j] + offset][_DICT_PROBABILITY_] <= 0) continue;
 
       probability = (double)rand()/(double)RAND_MAX;
 
-- 
2.43.0


From 6bc8a77621cd66fb3ad68cfdfcf31c31302b2114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:37:51 +0000
Subject: [PATCH 50/55] fix: keep the requested number of samples when more
 candidates are drawn than can be held

---
 src/main/aux-level/force-stratified-sample.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aux-level/force-stratified-sample.c b/src/main/aux-level/force-stratified-sample.c
index ba41cc3..ba0933d 100644
--- a/src/main/aux-level/force-stratified-sample.c
+++ b/src/main/aux-level/force-stratified-sample.c
@@ -297,7 +297,6 @@ OGRGeometryH point;
       probability = (double)rand()/(double)RAND_MAX;
 
       if (dictionary[line[j] + offset][_DICT_PROBABILITY_] >= probability){
-        dictionary[line[j] + offset][_DICT_COUNT_]++;
         //printf("%d samples pre-selected (row %d, col %d)\n", count, i, j);
 
         if (count < sample.nrow){
@@ -306,6 +305,7 @@ OGRGeometryH point;
           sample.data[count][_SAMPLE_Y_] = geotran[3] + i * geotran[5] + geotran[5] * 0.5;
           sample.data[count][_SAMPLE_PROBABILITY_] = probability;
           sample.row_mask[count] = true;
+          dictionary[line[j] + offset][_DICT_COUNT_]++;
           count++;
         }
 
-- 
2.43.0


From 2e3690325b8f6ecb59c43526ce25820a555d1ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:39:33 +0000
Subject: [PATCH 51/55] fix: read datacube definitions with tags when cubing
 external data

---
 bash/force-cube.sh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bash/force-cube.sh b/bash/force-cube.sh
index 171fc19..27ba6dc 100755
--- a/bash/force-cube.sh
+++ b/bash/force-cube.sh
@@ -322,11 +322,11 @@ for i in "$@"; do
   debug "tempfile: $FTMP"
 
   # datacube parameters
-  WKT=$(head -n 1 "$DCDEF")
-  ORIGX=$(head -n 4 "$DCDEF"  | tail -1 )
-  ORIGY=$(head -n 5 "$DCDEF" | tail -1 )
-  TILESIZE=$(head -n 6 "$DCDEF" | tail -1 )
-  CHUNKSIZE=$(head -n 7 "$DCDEF" | tail -1 )
+  WKT=$(head -n 1 "$DCDEF" | sed 's/^[A-Z_]* = //')
+  ORIGX=$(head -n 4 "$DCDEF"  | tail -1 | sed 's/^[A-Z_]* = //')
+  ORIGY=$(head -n 5 "$DCDEF" | tail -1 | sed 's/^[A-Z_]* = //')
+  TILESIZE=$(head -n 6 "$DCDEF" | tail -1 | sed 's/^[A-Z_]* = //')
+  CHUNKSIZE=$(head -n 7 "$DCDEF" | tail -1 | sed 's/^[A-Z_]* = //')
   debug "$WKT $ORIGX $ORIGY $TILESIZE $CHUNKSIZE"
 
   # nodata value
-- 
2.43.0


From 86daf90142f962ffa1595a495dbd0b8a9fbb5c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:39:33 +0000
Subject: [PATCH 52/55] fix: cube external data into tiles that are not square

---
 bash/force-cube.sh | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/bash/force-cube.sh b/bash/force-cube.sh
index 27ba6dc..11d1698 100755
--- a/bash/force-cube.sh
+++ b/bash/force-cube.sh
@@ -107,9 +107,9 @@ function cubethis(){
   debug "$x $y $ORIGX $ORIGY $TILESIZE $CHUNKSIZE $RES $FINP $DOUT $COUT"
 
   ULX=$(echo "$ORIGX" "$x" "$TILESIZE" | awk '{printf "%f",  $1 + $2*$3}')
-  ULY=$(echo "$ORIGY" "$y" "$TILESIZE" | awk '{printf "%f",  $1 - $2*$3}')
+  ULY=$(echo "$ORIGY" "$y" "$TILESIZEY" | awk '{printf "%f",  $1 - $2*$3}')
   LRX=$(echo "$ORIGX" "$x" "$TILESIZE" | awk '{printf "%f",  $1 + ($2+1)*$3}')
-  LRY=$(echo "$ORIGY" "$y" "$TILESIZE" | awk '{printf "%f",  $1 - ($2+1)*$3}')
+  LRY=$(echo "$ORIGY" "$y" "$TILESIZEY" | awk '{printf "%f",  $1 - ($2+1)*$3}')
   TILE=$(printf "X%04d_Y%04d" "$x" "$y")
   XBLOCK=$(echo "$TILESIZE"  "$RES" | awk '{print int($1/$2)}')
   YBLOCK=$(echo "$CHUNKSIZE" "$RES" | awk '{print int($1/$2)}')
@@ -327,6 +327,8 @@ for i in "$@"; do
   ORIGY=$(head -n 5 "$DCDEF" | tail -1 | sed 's/^[A-Z_]* = //')
   TILESIZE=$(head -n 6 "$DCDEF" | tail -1 | sed 's/^[A-Z_]* = //')
   CHUNKSIZE=$(head -n 7 "$DCDEF" | tail -1 | sed 's/^[A-Z_]* = //')
+  TILESIZEY=$(grep '^TILE_SIZE_Y = ' "$DCDEF" | sed 's/^[A-Z_]* = //')
+  TILESIZEY=${TILESIZEY:-$TILESIZE} # older definitions have square tiles
   debug "$WKT $ORIGX $ORIGY $TILESIZE $CHUNKSIZE"
 
   # nodata value
@@ -383,9 +385,9 @@ for i in "$@"; do
 
   # 1st tile, and ulx/uly of 1st tile
   TXMIN=$(echo "$XMIN" "$ORIGX" "$TILESIZE" | awk '{f=($1-$2)/$3;i=int(f);print(i==f||f>0)?i:i-1}')
-  TYMIN=$(echo "$YMAX" "$ORIGY" "$TILESIZE" | awk '{f=($2-$1)/$3;i=int(f);print(i==f||f>0)?i:i-1}')
+  TYMIN=$(echo "$YMAX" "$ORIGY" "$TILESIZEY" | awk '{f=($2-$1)/$3;i=int(f);print(i==f||f>0)?i:i-1}')
   ULX=$(echo "$ORIGX" "$TXMIN" "$TILESIZE" | awk '{printf "%f", $1 + $2*$3}')
-  ULY=$(echo "$ORIGY" "$TYMIN" "$TILESIZE" | awk '{printf "%f", $1 - $2*$3}')
+  ULY=$(echo "$ORIGY" "$TYMIN" "$TILESIZEY" | awk '{printf "%f", $1 - $2*$3}')
   debug "UL grid $ULX $ULY"
 
   # step a tile to the west, and check if image is in tile, find last tile
@@ -398,10 +400,10 @@ for i in "$@"; do
 
   # step a tile to the south, and check if image is in tile, find last tile
   TYMAX=$TYMIN
-  ULY=$(echo "$ULY" "$TILESIZE" | awk '{printf "%f", $1-$2}')
+  ULY=$(echo "$ULY" "$TILESIZEY" | awk '{printf "%f", $1-$2}')
   while is_lt "$YMIN" "$ULY"; do
     TYMAX=$(echo "$TYMAX" | awk '{print $1+1}')
-    ULY=$(echo "$ULY" "$TILESIZE" | awk '{printf "%f",  $1-$2}')
+    ULY=$(echo "$ULY" "$TILESIZEY" | awk '{printf "%f",  $1-$2}')
   done
   debug "X_TILE_RANGE = $TXMIN $TXMAX"
   debug "Y_TILE_RANGE = $TYMIN $TYMAX"
@@ -411,7 +413,7 @@ for i in "$@"; do
   MEMORY=$(LANG="C"; free --mega | awk '/^Mem/ { printf("%.0fM\n", $2 * 0.05) }')
 
   # cube the file, spawn multiple jobs for each tile
-  export WKT ORIGX ORIGY TILESIZE CHUNKSIZE RES 
+  export WKT ORIGX ORIGY TILESIZE TILESIZEY CHUNKSIZE RES 
   export FINP DOUT COUT INODATA ONODATA RESAMPLE RASTER DATATYPE ATTRIBUTE
   $PARALLEL_EXE -j "$NJOB" --memsuspend "$MEMORY" cubethis {1} {2} ::: $(seq "$TXMIN" "$TXMAX") ::: $(seq "$TYMIN" "$TYMAX")
 
-- 
2.43.0


From 0fc1be9fbeab89049f57922b6694f79777dca896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:39:33 +0000
Subject: [PATCH 53/55] fix: tile extents that include tile number zero

---
 bash/force-tile-extent.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bash/force-tile-extent.sh b/bash/force-tile-extent.sh
index 3581fc8..5269e2c 100755
--- a/bash/force-tile-extent.sh
+++ b/bash/force-tile-extent.sh
@@ -160,8 +160,8 @@ for i in "${TILES_MASK[@]}"; do
   X=${i:1:4}
   Y=${i:7:4}
 
-  X=$(echo $X | sed 's/^0*//')
-  Y=$(echo $Y | sed 's/^0*//')
+  X=$(echo $X | sed 's/^\(-\?\)0*\(.\)/\1\2/')
+  Y=$(echo $Y | sed 's/^\(-\?\)0*\(.\)/\1\2/')
 
   is_gt "$X" "$XMAX" && XMAX="$X"
   is_lt "$X" "$XMIN" && XMIN="$X"
-- 
2.43.0


From b4c988df55ceeef13eed89e29435dd7bcd0b3e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:39:33 +0000
Subject: [PATCH 54/55] fix: keep temporary data of tile extents beside the
 allow-list

---
 bash/force-tile-extent.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bash/force-tile-extent.sh b/bash/force-tile-extent.sh
index 5269e2c..410e912 100755
--- a/bash/force-tile-extent.sh
+++ b/bash/force-tile-extent.sh
@@ -108,7 +108,7 @@ debug "allow-list:   $FILE_ALLOW"
 debug "AOI:          $FILE_AOI"
 debug "njobs:        $NJOB"
 
-DIR_ALLOW=$(dirname "FILE_ALLOW")
+DIR_ALLOW=$(dirname "$FILE_ALLOW")
 FILE_CUBE="$DIR_CUBE/datacube-definition.prj"
 
 # checks
-- 
2.43.0


From d3a4bc7a9f510152c15ee465437e7bfba4553cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:43:01 +0000
Subject: [PATCH 55/55] fix: accept blanks in expressions for processing masks

---
 bash/force-procmask.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bash/force-procmask.sh b/bash/force-procmask.sh
index 7cbc841..57f8e84 100755
--- a/bash/force-procmask.sh
+++ b/bash/force-procmask.sh
@@ -90,7 +90,7 @@ function mask(){
     -A $FILE \
     --A_band=$LAYER \
     --outfile=$DOUT/$TILE/$FOUT \
-    --calc=$CALC \
+    --calc="$CALC" \
     --NoDataValue=255 \
     --type=Byte \
     --format='GTiff' \
-- 
2.43.0

