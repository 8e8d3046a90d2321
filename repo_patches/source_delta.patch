From 98736c5b381dba01fb342319a90dcc48495bbe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 001/126] fix: mpi-pt strided and vector SMP transfers bypass
 direct contiguous ones

A strided or vector put/acc to a process on the same node went through the
progress thread while contiguous transfers access the memory directly, so a
process could miss its own earlier blocking update. Use the direct path for
the whole node, as mpi-pr does.
---
 comex/src-mpi-pt/comex.c | 42 ++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 878bcbb..708feb5 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -4534,10 +4534,11 @@ STATIC void nb_puts(
     }
 
 #if ENABLE_PUT_PACKED
-#if ENABLE_PUT_SELF
-    /* if not a strided put to self, use packed algorithm */
-    if (g_state.rank != proc)
-#endif
+    /* if not a strided put to self or SMP, use packed algorithm; the SMP case has
+     * to stay ordered with the direct contiguous operations on SMP memory */
+    if ((!ENABLE_PUT_SELF || g_state.rank != proc)
+            && (!ENABLE_PUT_SMP
+                || g_state.hostid[proc] != g_state.hostid[g_state.rank]))
     {
         nb_puts_packed(src, src_stride, dst, dst_stride, count, stride_levels, proc, nb);
         return;
@@ -4686,10 +4687,11 @@ STATIC void nb_gets(
     }
 
 #if ENABLE_GET_PACKED
-#if ENABLE_GET_SELF
-    /* if not a strided get from self, use packed algorithm */
-    if (g_state.rank != proc)
-#endif
+    /* if not a strided get from self or SMP, use packed algorithm; the SMP case has
+     * to stay ordered with the direct contiguous operations on SMP memory */
+    if ((!ENABLE_GET_SELF || g_state.rank != proc)
+            && (!ENABLE_GET_SMP
+                || g_state.hostid[proc] != g_state.hostid[g_state.rank]))
     {
         nb_gets_packed(src, src_stride, dst, dst_stride, count, stride_levels, proc, nb);
         return;
@@ -4851,10 +4853,11 @@ STATIC void nb_accs(
     }
 
 #if ENABLE_ACC_PACKED
-#if ENABLE_ACC_SELF
-    /* if not a strided acc to self, use packed algorithm */
-    if (g_state.rank != proc)
-#endif
+    /* if not a strided acc to self or SMP, use packed algorithm; the SMP case has
+     * to stay ordered with the direct contiguous operations on SMP memory */
+    if ((!ENABLE_ACC_SELF || g_state.rank != proc)
+            && (!ENABLE_ACC_SMP
+                || g_state.hostid[proc] != g_state.hostid[g_state.rank]))
     {
         nb_accs_packed(datatype, scale, src, src_stride, dst, dst_stride, count, stride_levels, proc, nb);
         return;
@@ -5032,7 +5035,10 @@ STATIC void nb_putv(
 
     for (i=0; i<iov_len; ++i) {
         /* if not a vector put to self, use packed algorithm */
-        if (ENABLE_PUT_IOV && (!ENABLE_PUT_SELF || g_state.rank != proc)) {
+        if (ENABLE_PUT_IOV
+                && (!ENABLE_PUT_SELF || g_state.rank != proc)
+                && (!ENABLE_PUT_SMP
+                    || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
             nb_putv_packed(&iov[i], proc, nb);
         }
         else {
@@ -5133,7 +5139,10 @@ STATIC void nb_getv(
 
     for (i=0; i<iov_len; ++i) {
         /* if not a vector get from self, use packed algorithm */
-        if (ENABLE_GET_IOV && (!ENABLE_GET_SELF || g_state.rank != proc)) {
+        if (ENABLE_GET_IOV
+                && (!ENABLE_GET_SELF || g_state.rank != proc)
+                && (!ENABLE_GET_SMP
+                    || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
             nb_getv_packed(&iov[i], proc, nb);
         }
         else {
@@ -5243,7 +5252,10 @@ STATIC void nb_accv(
 
     for (i=0; i<iov_len; ++i) {
         /* if not a vector acc to self, use packed algorithm */
-        if (ENABLE_ACC_IOV && (!ENABLE_ACC_SELF || g_state.rank != proc)) {
+        if (ENABLE_ACC_IOV
+                && (!ENABLE_ACC_SELF || g_state.rank != proc)
+                && (!ENABLE_ACC_SMP
+                    || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
             nb_accv_packed(datatype, scale, &iov[i], proc, nb);
         }
         else {
-- 
2.43.0


From d6c4042ea3b74dd024a616b7bd378c32c373085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 002/126] fix: block-cyclic, ScaLAPACK and tiled iterators skip
 processes without blocks

With fewer blocks than processes (or a process grid larger than the grid of
blocks) the iterators visited blocks that do not exist and transferred data
from or to memory that was never allocated.
---
 global/src/iterator.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index 896dd55..dddcbb8 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -178,6 +178,19 @@ void gam_LocationF(int proc, Integer g_handle,  Integer subscript[],
   }                                                                        \
 }
 
+/**
+ * Check whether the processor at location proc_index in the processor grid of
+ * a tiled or ScaLAPACK-type array holds any blocks at all
+ */
+static int gai_proc_has_blocks(Integer handle, Integer *proc_index)
+{
+  int i;
+  for (i=0; i<GA[handle].ndim; i++) {
+    if (proc_index[i] >= GA[handle].num_blocks[i]) return 0;
+  }
+  return 1;
+}
+
 /**
  * Initialize an iterator handle
  * @param g_a global array handle
@@ -467,6 +480,8 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
       /* Simple block-cyclic distribution */
       if (hdl->iproc >= nproc) return 0;
       /*if (hdl->iproc == nproc-1 && hdl->iblock >= blk_tot) return 0;*/
+      /* no more blocks if there are fewer blocks than processors */
+      if (hdl->iblock >= blk_tot) return 0;
       if (hdl->iblock == hdl->iproc) hdl->offset = 0;
       chk = 0;
       /* loop over blocks until a block with data is found */
@@ -507,7 +522,7 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
             hdl->offset = 0;
             hdl->iproc++;
             hdl->iblock = hdl->iproc;
-            if (hdl->iproc >= nproc) return 0;
+            if (hdl->iproc >= nproc || hdl->iblock >= blk_tot) return 0;
           }
         }
       }
@@ -570,6 +585,15 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
       chk = 0;
       /* loop over blocks until a block with data is found */
       while (!chk) {
+        /* skip processors that hold no blocks because the processor grid is
+         * larger than the grid of blocks along some dimension */
+        while (!gai_proc_has_blocks(handle, hdl->proc_index)) {
+          hdl->iproc++;
+          if (hdl->iproc >= nproc) return 0;
+          hdl->offset = 0;
+          gam_find_tile_proc_indices(handle, hdl->iproc, hdl->proc_index);
+          gam_find_tile_proc_indices(handle, hdl->iproc, hdl->index);
+        }
         /* get bounds for current block */
         if (GA[handle].distr_type == SCALAPACK ||
             GA[handle].distr_type == TILED) {
@@ -888,6 +912,8 @@ int pnga_local_iterator_next(_iterator_hdl *hdl, Integer plo[],
       GA[handle].distr_type == TILED) {
     /* Scalapack-type data distribution */
     if (hdl->index[ndim-1] >= hdl->blk_num[ndim-1]) return 0;
+    /* this processor may not hold any blocks */
+    if (!gai_proc_has_blocks(handle, hdl->proc_index)) return 0;
     /* Find coordinates of bounding block */
     for (i=0; i<ndim; i++) {
       plo[i] = hdl->index[i]*hdl->blk_size[i]+1;
@@ -906,6 +932,8 @@ int pnga_local_iterator_next(_iterator_hdl *hdl, Integer plo[],
     /* Irregular tiled data distribution */
     Integer offset = 0;
     if (hdl->index[ndim-1] >= hdl->blk_num[ndim-1]) return 0;
+    /* this processor may not hold any blocks */
+    if (!gai_proc_has_blocks(handle, hdl->proc_index)) return 0;
     /* Find coordinates of bounding block */
     for (i=0; i<ndim; i++) {
       plo[i] = hdl->mapc[offset+hdl->index[i]];
-- 
2.43.0


From 9b5d11e2d8a34031245aabd0d4ae76336ff6dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 003/126] fix: locate_region, locate_nnodes and
 locate_num_blocks report wrong blocks for block-cyclic, ScaLAPACK and tiled
 arrays

A region strictly inside one block was not found, ScaLAPACK and tiled
regions got wrong block indices and unclipped bounds, and locate accepted
subscripts outside of the array.
---
 global/src/base.c | 47 +++++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 3a9be8d..dff655d 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -796,10 +796,10 @@ Integer d, proc, dpos, ndim, ga_handle = GA_OFFSET + g_a, proc_s[MAXDIM];
    ga_check_handleM(g_a, "nga_locate");
    ndim = GA[ga_handle].ndim;
 
-   if (GA[ga_handle].distr_type == REGULAR) {
-     for(d=0, *owner=-1; d< ndim; d++) 
-       if(subscript[d]< 1 || subscript[d]>GA[ga_handle].dims[d]) return FALSE;
+   for(d=0, *owner=-1; d< ndim; d++) 
+     if(subscript[d]< 1 || subscript[d]>GA[ga_handle].dims[d]) return FALSE;
 
+   if (GA[ga_handle].distr_type == REGULAR) {
      for(d = 0, dpos = 0; d< ndim; d++){
        findblock(GA[ga_handle].mapc + dpos, GA[ga_handle].nblock[d],
            GA[ga_handle].scale[d], subscript[d], &proc_s[d]);
@@ -4629,11 +4629,9 @@ logical pnga_locate_nnodes( Integer g_a,
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the interval represented by tlo and thi
+         * overlaps the interval represented by lo and hi */
+        if (tlo[j] > hi[j] || thi[j] < lo[j]) {
           chk = 0;
         }
       }
@@ -4820,11 +4818,9 @@ logical pnga_locate_region( Integer g_a,
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the interval represented by tlo and thi
+         * overlaps the interval represented by lo and hi */
+        if (tlo[j] > hi[j] || thi[j] < lo[j]) {
           chk = 0;
         }
       }
@@ -4862,23 +4858,16 @@ logical pnga_locate_region( Integer g_a,
     }
     while (count[ndim-1]<=max[ndim-1]) {
       /* Calculate block index */
-      Integer idx = 0;
-      Integer factor = 1;
-      Integer iproc;
-      Integer p_handle = GA[ga_handle].p_handle;
-      Integer size = pnga_pgroup_nnodes(p_handle);
-      for (i=ndim-1; i>=0; i--) {
-        idx = idx*factor+count[i];
-        factor *= GA[ga_handle].num_blocks[i];
-      }
+      Integer idx;
+      gam_find_block_from_indices(ga_handle,idx,count);
       proclist[cnt] = idx;
-      /* store information on this block */
+      /* store information on the part of the region in this block */
       offset = 2*cnt*ndim;
       for (i=0; i<ndim; i++) {
         map[offset+i] = count[i]*GA[ga_handle].block_dims[i]+1;
         map[offset+ndim+i] = (count[i]+1)*GA[ga_handle].block_dims[i];
-        if (map[offset+ndim+i] > GA[ga_handle].dims[i])
-          map[offset+ndim+i] = GA[ga_handle].dims[i];
+        if (map[offset+i] < lo[i]) map[offset+i] = lo[i];
+        if (map[offset+ndim+i] > hi[i]) map[offset+ndim+i] = hi[i];
       }
       cnt++;
       /* Increment count array */
@@ -5610,11 +5599,9 @@ Integer pnga_locate_num_blocks(Integer g_a, Integer *lo, Integer *hi)
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the interval represented by tlo and thi
+         * overlaps the interval represented by lo and hi */
+        if (tlo[j] > hi[j] || thi[j] < lo[j]) {
           chk = 0;
         }
       }
-- 
2.43.0


From 573448e232f41586f95981f34597f97dcc4ca8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 004/126] fix: C locate_region and locate_nnodes use
 uninitialised counts for regions out of bounds

---
 global/src/capi.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index b0aee49..cbe2a0e 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -2629,7 +2629,7 @@ int NGA_Locate64(int g_a, int64_t subscript[])
 int NGA_Locate_nnodes(int g_a, int lo[], int hi[])
 {
      /* logical st; */
-     Integer a=(Integer)g_a, np;
+     Integer a=(Integer)g_a, np=0;
      Integer ndim = wnga_ndim(a);
      Integer _ga_lo[MAXDIM], _ga_hi[MAXDIM];
 
@@ -2644,7 +2644,7 @@ int NGA_Locate_nnodes(int g_a, int lo[], int hi[])
 int NGA_Locate_nnodes64(int g_a, int64_t lo[], int64_t hi[])
 {
      /* logical st; */
-     Integer a=(Integer)g_a, np;
+     Integer a=(Integer)g_a, np=0;
      Integer ndim = wnga_ndim(a);
      Integer _ga_lo[MAXDIM], _ga_hi[MAXDIM];
 
@@ -2659,7 +2659,7 @@ int NGA_Locate_nnodes64(int g_a, int64_t lo[], int64_t hi[])
 int NGA_Locate_region(int g_a,int lo[],int hi[],int map[],int procs[])
 {
      logical st;
-     Integer a=(Integer)g_a, np_guess, np_actual;
+     Integer a=(Integer)g_a, np_guess=0, np_actual=0;
      Integer ndim = wnga_ndim(a);
      Integer *tmap;
      int i;
@@ -2697,7 +2697,7 @@ int NGA_Locate_region(int g_a,int lo[],int hi[],int map[],int procs[])
 int NGA_Locate_region64(int g_a,int64_t lo[],int64_t hi[],int64_t map[],int procs[])
 {
      logical st;
-     Integer a=(Integer)g_a, np_guess, np_actual;
+     Integer a=(Integer)g_a, np_guess=0, np_actual=0;
      Integer ndim = wnga_ndim(a);
      Integer *tmap;
      int i;
-- 
2.43.0


From f5a28261759686b8363162a45fd320df69c64487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 005/126] fix: 64-bit pointer forms of gather, scatter and
 scatter_acc read their subscripts as int

---
 global/src/capi.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index cbe2a0e..89cd048 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -3070,7 +3070,6 @@ void NGA_Scatter64(int g_a, void *v, int64_t* subsArray[], int64_t n)
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3080,9 +3079,6 @@ void NGA_Scatter64(int g_a, void *v, int64_t* subsArray[], int64_t n)
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_scatter(a, v, _subs_array, 0, nv);
     free(_subs_array);
-#else
-    wnga_scatter(a, v, subsArray, 1, nv);
-#endif
 }
 
 void NGA_Scatter_flat64(int g_a, void *v, int64_t subsArray[], int64_t n)
@@ -3152,7 +3148,6 @@ void NGA_Scatter_acc64(int g_a, void *v, int64_t* subsArray[], int64_t n, void *
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3162,9 +3157,6 @@ void NGA_Scatter_acc64(int g_a, void *v, int64_t* subsArray[], int64_t n, void *
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_scatter_acc(a, v, _subs_array, 0, nv, alpha);
     free(_subs_array);
-#else
-    wnga_scatter_acc(a, v, subsArray, 1, nv, alpha);
-#endif
 }
 
 void NGA_Scatter_acc_flat64(int g_a, void *v, int64_t subsArray[], int64_t n, void *alpha)
@@ -3237,7 +3229,6 @@ void NGA_Gather64(int g_a, void *v, int64_t* subsArray[], int64_t n)
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3249,9 +3240,6 @@ void NGA_Gather64(int g_a, void *v, int64_t* subsArray[], int64_t n)
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_gather(a, v, _subs_array, 0, nv);
     free(_subs_array);
-#else
-    wnga_gather(a, v, subsArray, 1, nv);
-#endif
 }
 
 
-- 
2.43.0


From 9ca3216e6a58d5b1d18090b0a8a848c547915e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 006/126] fix: block pointers of tiled arrays are wrong unless
 the processor grid is two wide

---
 global/src/onesided.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index e941da7..41c6ec9 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1679,9 +1679,9 @@ void pnga_access_block_grid_ptr(Integer g_a, Integer *index, void* ptr, Integer
       lo = 0;
       hi = -1;
       */
-      block_idx[i] = (index[i]-proc_index[i]+1)/proc_grid[i];
-      ldim = (num_blocks[i]-proc_index[i]+1)/proc_grid[i];
-      if ((num_blocks[i]-proc_index[i]+1)%proc_grid[i] == 0) {
+      block_idx[i] = (index[i]-proc_index[i])/proc_grid[i];
+      ldim = (num_blocks[i]-proc_index[i]+proc_grid[i]-1)/proc_grid[i];
+      if ((num_blocks[i]-proc_index[i]-1)%proc_grid[i] == 0) {
         if (dims[i]%block_dims[i] != 0) {
           lld[i] = (ldim-1)*block_dims[i] + dims[i]%block_dims[i];
         } else {
-- 
2.43.0


From 2dbbc7c785351f778df986bfd4fc3fc9c8e0977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 007/126] fix: GA_Add of an array to itself uses an
 uninitialised type

---
 global/src/global.nalg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/global.nalg.c b/global/src/global.nalg.c
index 4a56072..c0e49af 100644
--- a/global/src/global.nalg.c
+++ b/global/src/global.nalg.c
@@ -777,7 +777,7 @@ int local_sync_begin,local_sync_end;
        /* distributions not identical */
        pnga_inquire(g_a, &type, &andim, adims);
        pnga_inquire(g_b, &type, &bndim, bdims);
-       pnga_inquire(g_b, &type, &cndim, cdims);
+       pnga_inquire(g_c, &type, &cndim, cdims);
 
        pnga_add_patch(alpha, g_a, one_arr, adims, beta, g_b, one_arr, bdims,
                       g_c, one_arr, cdims);
@@ -825,7 +825,7 @@ int local_sync_begin,local_sync_end;
    if (  _lo[0]>0 ){
 
        /* operation on the "local" piece of data */
-       switch(type){
+       switch(typeC){
          int *ia, *ib, *ic;
          double *da,*db,*dc;
          float *fa, *fb, *fc;
-- 
2.43.0


From a2bf34df6ba8af6402edb828114de37db183b343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 008/126] fix: complex elementwise multiply is wrong when the
 result is also an operand

---
 global/src/elem_alg.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/global/src/elem_alg.c b/global/src/elem_alg.c
index 26c9cd9..83a5dbb 100644
--- a/global/src/elem_alg.c
+++ b/global/src/elem_alg.c
@@ -1072,11 +1072,13 @@ static void do_multiply(void *pA, void *pB, void *pC, Integer nelems, Integer ty
 #define TYPE_CASE(MT,T,AT)                                                  \
         case MT:                                                            \
             {                                                               \
-                const T* const restrict aptr = (const T* const restrict)pA; \
-                const T* const restrict bptr = (const T* const restrict)pB; \
-                T* const restrict cptr = (T* const restrict)pC;             \
+                /* C may be the same array as A or B */                     \
+                const T* const aptr = (const T*)pA;                         \
+                const T* const bptr = (const T*)pB;                         \
+                T* const cptr = (T*)pC;                                     \
                 for (i=0; i<nelems; i++) {                                  \
-                    assign_mul_##AT(cptr[i],aptr[i],bptr[i]);               \
+                    const T aval = aptr[i], bval = bptr[i];                 \
+                    assign_mul_##AT(cptr[i],aval,bval);                     \
                 }                                                           \
                 break;                                                      \
             }
-- 
2.43.0


From dc8e80aab13366016798622ae6d98c9f76dc40f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 009/126] fix: elementwise operations and add assume that
 operands with equal distributions have equal ghost widths and dimensions

---
 global/src/elem_alg.c      |  6 ++++--
 global/src/global.npatch.c | 31 +++++++++++++++++++++++++++++--
 global/src/globalp.h       |  1 +
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/global/src/elem_alg.c b/global/src/elem_alg.c
index 83a5dbb..a831461 100644
--- a/global/src/elem_alg.c
+++ b/global/src/elem_alg.c
@@ -1887,7 +1887,8 @@ int op; /* operation to be perform between g_a and g_b */
 
     /* test if the local portion of patches matches */
     if(pnga_comp_patch(andim, loA, hiA, cndim, loC, hiC) &&
-        pnga_comp_patch(andim, alo, ahi, cndim, clo, chi)) compatible = 1;
+        pnga_comp_patch(andim, alo, ahi, cndim, clo, chi) &&
+        gai_comp_layout(g_A, g_c, loC, hiC)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -1914,7 +1915,8 @@ int op; /* operation to be perform between g_a and g_b */
 
     /* test if the local portion of patches matches */
     if(pnga_comp_patch(bndim, loB, hiB, cndim, loC, hiC) &&
-        pnga_comp_patch(bndim, blo, bhi, cndim, clo, chi)) compatible = 1;
+        pnga_comp_patch(bndim, blo, bhi, cndim, clo, chi) &&
+        gai_comp_layout(g_B, g_c, loC, hiC)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
diff --git a/global/src/global.npatch.c b/global/src/global.npatch.c
index 0ac99f0..e6090fa 100644
--- a/global/src/global.npatch.c
+++ b/global/src/global.npatch.c
@@ -132,6 +132,31 @@ logical pnga_comp_patch(Integer andim, Integer *alo, Integer *ahi,
 }
 
 
+/* test if a patch held by this process has the same layout in memory in two
+ * identically distributed GAs: the number of dimensions and the leading
+ * dimensions (which depend on ghost cell widths) must be the same */
+logical gai_comp_layout(Integer g_a, Integer g_b, Integer *lo, Integer *hi)
+{
+    Integer i;
+    Integer ldA[MAXDIM], ldB[MAXDIM];
+    Integer ndim = pnga_ndim(g_a);
+    char *ptr;
+
+    if(ndim != pnga_ndim(g_b)) return FALSE;
+
+    for(i=0; i<ndim; i++)
+        if(lo[i] > hi[i]) return TRUE; /* no data on this process */
+
+    pnga_access_ptr(g_a, lo, hi, &ptr, ldA);
+    pnga_release(g_a, lo, hi);
+    pnga_access_ptr(g_b, lo, hi, &ptr, ldB);
+    pnga_release(g_b, lo, hi);
+    for(i=0; i<ndim-1; i++)
+        if(ldA[i] != ldB[i]) return FALSE;
+
+    return TRUE;
+}
+
 /* test two GAs to see if they have the same shape */
 static logical snga_test_shape(Integer *alo, Integer *ahi, Integer *blo,
                           Integer *bhi, Integer andim, Integer bndim)
@@ -2703,12 +2728,14 @@ void *alpha, *beta;
 
     /* test if the local portion of patches matches */
     if(pnga_comp_patch(andim, loA, hiA, cndim, loC, hiC) &&
-       pnga_comp_patch(andim, alo, ahi, cndim, clo, chi)) compatible_a = 1;
+       pnga_comp_patch(andim, alo, ahi, cndim, clo, chi) &&
+       gai_comp_layout(g_A, g_c, loC, hiC)) compatible_a = 1;
     else compatible_a = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible_a, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible_a, 1, "&&");
     if(pnga_comp_patch(bndim, loB, hiB, cndim, loC, hiC) &&
-       pnga_comp_patch(bndim, blo, bhi, cndim, clo, chi)) compatible_b = 1;
+       pnga_comp_patch(bndim, blo, bhi, cndim, clo, chi) &&
+       gai_comp_layout(g_B, g_c, loC, hiC)) compatible_b = 1;
     else compatible_b = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible_b, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible_b, 1, "&&");
diff --git a/global/src/globalp.h b/global/src/globalp.h
index 2db39cc..c154ce4 100644
--- a/global/src/globalp.h
+++ b/global/src/globalp.h
@@ -140,6 +140,7 @@ extern void    ga_sort_gath(Integer *pn, Integer *i, Integer *j, Integer *base);
 extern void    ga_sort_permutation(Integer *pn, Integer *index, Integer *base);
 extern void    ga_sort_scat(Integer *pn, void *v, Integer *i, Integer *j, Integer *base, Integer type);
 extern void    gai_hsort(Integer *list, int num);
+extern logical gai_comp_layout(Integer g_a, Integer g_b, Integer *lo, Integer *hi);
 extern void    ga_init_nbhandle(Integer *nbhandle);
 extern int     nga_test_internal(Integer *nbhandle);
 extern int     nga_wait_internal(Integer *nbhandle);
-- 
2.43.0


From 2dbacef8646bf04b87a91efb88073cc64ec2bc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:58 +0000
Subject: [PATCH 010/126] fix: block-cyclic, ScaLAPACK and tiled arrays on
 process groups use world ranks and sizes

---
 global/src/base.c     | 24 ++++++++++++------------
 global/src/iterator.c | 10 +++++-----
 global/src/onesided.c |  9 +++++----
 3 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index dff655d..d40904b 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2646,7 +2646,7 @@ logical pnga_allocate(Integer g_a)
     Integer tsize, j;
     Integer lo[MAXDIM];
     block_size = 0;
-    for (i=GAme; i<nblocks; i +=GAnproc) {
+    for (i=grp_me; i<nblocks; i +=grp_nproc) {
       ga_ownsM(ga_handle,i,lo,hi);
       tsize = 1;
       for (j=0; j<ndim; j++) {
@@ -2659,7 +2659,7 @@ logical pnga_allocate(Integer g_a)
        out how much memory is needed by each processor to store blocks */
     Integer j, jtot, skip, imin, imax, tot;
     Integer index[MAXDIM];
-    gam_find_proc_indices(ga_handle,GAme,index);
+    gam_find_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     tot = 1;
     for (i=0; i<GA[ga_handle].ndim; i++) {
@@ -2688,7 +2688,7 @@ logical pnga_allocate(Integer g_a)
        out how much memory is needed by each processor to store blocks */
     Integer j, jtot, skip, imin, imax, tot;
     Integer index[MAXDIM];
-    gam_find_tile_proc_indices(ga_handle,GAme,index);
+    gam_find_tile_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     tot = 1;
     for (i=0; i<GA[ga_handle].ndim; i++) {
@@ -2718,7 +2718,7 @@ logical pnga_allocate(Integer g_a)
     Integer j, jtot, skip, imin, imax, tot;
     Integer index[MAXDIM];
     Integer offset = 0;
-    gam_find_tile_proc_indices(ga_handle,GAme,index);
+    gam_find_tile_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     tot = 1;
     for (i=0; i<GA[ga_handle].ndim; i++) {
@@ -2998,7 +2998,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
     Integer tsize, j;
     Integer lo[MAXDIM];
     block_size = 0;
-    for (i=GAme; i<nblocks; i +=GAnproc) {
+    for (i=grp_me; i<nblocks; i +=grp_nproc) {
       ga_ownsM(ga_handle,i,lo,hi);
       tsize = 1;
       for (j=0; j<ndim; j++) {
@@ -3011,7 +3011,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
        out how much memory is needed by each processor to store blocks */
     Integer j, jtot, skip, imin, imax;
     Integer index[MAXDIM];
-    gam_find_proc_indices(ga_handle,GAme,index);
+    gam_find_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     for (i=0; i<ndim; i++) {
       skip = GA[ga_handle].nblock[i];
@@ -3029,7 +3029,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
        out how much memory is needed by each processor to store blocks */
     Integer j, jtot, skip, imin, imax;
     Integer index[MAXDIM];
-    gam_find_tile_proc_indices(ga_handle,GAme,index);
+    gam_find_tile_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     for (i=0; i<ndim; i++) {
       skip = GA[ga_handle].nblock[i];
@@ -3048,7 +3048,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
     Integer j, jtot, skip, imin, imax;
     Integer index[MAXDIM];
     Integer offset = 0;
-    gam_find_tile_proc_indices(ga_handle,GAme,index);
+    gam_find_tile_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     for (i=0; i<ndim; i++) {
       skip = GA[ga_handle].nblock[i];
@@ -4290,7 +4290,7 @@ void pnga_randomize(Integer g_a, void* val)
     }
   } else {
     Integer I_elems = (Integer)elems;
-    pnga_access_block_segment_ptr(g_a,GAme,&ptr,&I_elems);
+    pnga_access_block_segment_ptr(g_a,pnga_pgroup_nodeid(grp_id),&ptr,&I_elems);
     elems = (C_Long)I_elems;
     switch (GA[handle].type){
 /*
@@ -4319,7 +4319,7 @@ void pnga_randomize(Integer g_a, void* val)
       default:
         pnga_error("type not supported",GA[handle].type);
     }
-    pnga_release_block_segment(g_a,GAme);
+    pnga_release_block_segment(g_a,pnga_pgroup_nodeid(grp_id));
   }
 
   if(local_sync_end)pnga_pgroup_sync(grp_id);
@@ -4389,7 +4389,7 @@ void pnga_fill(Integer g_a, void* val)
     }
   } else {
     Integer I_elems = (Integer)elems;
-    pnga_access_block_segment_ptr(g_a,GAme,&ptr,&I_elems);
+    pnga_access_block_segment_ptr(g_a,pnga_pgroup_nodeid(grp_id),&ptr,&I_elems);
     elems = (C_Long)I_elems;
     switch (GA[handle].type){
       case C_DCPL: 
@@ -4416,7 +4416,7 @@ void pnga_fill(Integer g_a, void* val)
       default:
         pnga_error("type not supported",GA[handle].type);
     }
-    pnga_release_block_segment(g_a,GAme);
+    pnga_release_block_segment(g_a,pnga_pgroup_nodeid(grp_id));
   }
 
   if(local_sync_end)pnga_pgroup_sync(grp_id);
diff --git a/global/src/iterator.c b/global/src/iterator.c
index dddcbb8..7be41be 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -235,7 +235,7 @@ void gai_iterator_init(Integer g_a, Integer lo[], Integer hi[],
   } else if (GA[handle].distr_type == BLOCK_CYCLIC) {
     /* GA uses simple block cyclic data distribution */
     hdl->iproc = 0;
-    hdl->iblock = pnga_nodeid();
+    hdl->iblock = 0;
   } else if (GA[handle].distr_type == SCALAPACK)  {
     /* GA uses ScaLAPACK block cyclic data distribution */
     int j;
@@ -517,7 +517,7 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
           }
           hdl->offset += jtot;
           /* increment to next block */
-          hdl->iblock += pnga_nnodes();
+          hdl->iblock += pnga_pgroup_nnodes(grp);
           if (hdl->iblock >= blk_tot) {
             hdl->offset = 0;
             hdl->iproc++;
@@ -552,10 +552,10 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
 
         /* get pointer to data on remote block */
         pinv = idx%nproc;
+        *prem =  GA[handle].ptr[pinv]+l_offset*GA[handle].elemsize;
         if (p_handle > 0) {
           pinv = PGRP_LIST[p_handle].inv_map_proc_list[pinv];
         }
-        *prem =  GA[handle].ptr[pinv]+l_offset*GA[handle].elemsize;
         *proc = pinv;
 
         /* evaluate new offset for block idx */
@@ -565,7 +565,7 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
         }
         hdl->offset += jtot;
 
-        hdl->iblock += pnga_nnodes();
+        hdl->iblock += pnga_pgroup_nnodes(grp);
         if (hdl->iblock >= blk_tot) {
           hdl->iproc++;
           hdl->iblock = hdl->iproc;
@@ -718,10 +718,10 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
         if (n_rstrctd > 0) {
           pinv = rstrctd_list[pinv];
         }
+        *prem =  GA[handle].ptr[pinv]+l_offset*GA[handle].elemsize;
         if (p_handle > 0) {
           pinv = PGRP_LIST[p_handle].inv_map_proc_list[pinv];
         }
-        *prem =  GA[handle].ptr[pinv]+l_offset*GA[handle].elemsize;
         *proc = pinv;
 
         /* evaluate new offset for block */
diff --git a/global/src/onesided.c b/global/src/onesided.c
index 41c6ec9..cf8d132 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1799,9 +1799,10 @@ void pnga_access_block_ptr(Integer g_a, Integer idx, void* ptr, Integer *ld)
     pnga_error("block index outside allowed values",index);
 
   if (GA[handle].distr_type == BLOCK_CYCLIC) {
+    Integer nproc = pnga_pgroup_nnodes(GA[handle].p_handle);
     offset = 0;
-    inode = index%GAnproc;
-    for (i=inode; i<index; i += GAnproc) {
+    inode = index%nproc;
+    for (i=inode; i<index; i += nproc) {
       ga_ownsM(handle,i,lo,hi); 
       tsum = 1;
       for (j=0; j<ndim; j++) {
@@ -2311,7 +2312,7 @@ int rc=0;
     pnga_access_block_ptr(g_a, iproc, &ptr_ref, &ldp);
     pnga_release_block(g_a, iproc);
     if (GA[handle].distr_type == BLOCK_CYCLIC) {
-      proc = proc%pnga_nnodes();
+      proc = proc%pnga_pgroup_nnodes(GA[handle].p_handle);
     } else if (GA[handle].distr_type == SCALAPACK) {
       Integer index[2];
       gam_find_block_indices(handle, proc, index);
@@ -4012,7 +4013,7 @@ void *pval;
     if(GAme == proc)GAbytes.rdiloc += (double)sizeof(Integer);
 
     if (GA[handle].distr_type == BLOCK_CYCLIC) {
-      proc = proc%pnga_nnodes();
+      proc = proc%pnga_pgroup_nnodes(GA[handle].p_handle);
     } else if (GA[handle].distr_type == SCALAPACK) {
       Integer j, index[MAXDIM];
       gam_find_block_indices(handle, proc, index);
-- 
2.43.0


From 7649803412f8b051ff4c04276820ea39e9933790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:58 +0000
Subject: [PATCH 011/126] fix: copy_patch between groups with transpose or
 reshape never stores into the destination when its group is smaller

---
 global/src/global.npatch.c | 101 ++++++++++++++++++-------------------
 1 file changed, 50 insertions(+), 51 deletions(-)

diff --git a/global/src/global.npatch.c b/global/src/global.npatch.c
index e6090fa..8fcb464 100644
--- a/global/src/global.npatch.c
+++ b/global/src/global.npatch.c
@@ -192,7 +192,7 @@ void pnga_copy_patch(char *trans,
   Integer i, j;
   Integer idx, factor;
   Integer atype, btype, andim, adims[MAXDIM], bndim, bdims[MAXDIM];
-  Integer nelem;
+  Integer nelem, lndim;
   Integer atotal, btotal;
   Integer los[MAXDIM], his[MAXDIM];
   Integer lod[MAXDIM], hid[MAXDIM];
@@ -301,15 +301,16 @@ void pnga_copy_patch(char *trans,
       }
 
       /* calculate the number of elements in the patch that I own */
-      nelem = 1; for(i=0; i<andim; i++) nelem *= (his[i] - los[i] + 1);
+      lndim = use_put ? andim : bndim;
+      nelem = 1; for(i=0; i<lndim; i++) nelem *= (his[i] - los[i] + 1);
 
       for(i=0; i<andim; i++) ald[i] = ahi[i] - alo[i] + 1;
       for(i=0; i<bndim; i++) bld[i] = bhi[i] - blo[i] + 1;
 
       base = 0; factor = 1;
-      for(i=0; i<andim; i++) {
+      for(i=0; i<lndim; i++) {
         base += los[i] * factor;
-        factor *= ld[i];
+        if (i<lndim-1) factor *= ld[i];
       }
 
       /*** straight copy possible if there's no reshaping or transpose ***/
@@ -325,7 +326,7 @@ void pnga_copy_patch(char *trans,
           snga_dest_indices(bndim, los, blo, bld, andim, lod, alo, ald);
           snga_dest_indices(bndim, his, blo, bld, andim, hid, alo, ald);
           pnga_get(g_a, lod, hid, src_data_ptr, ld);
-          pnga_release(g_b, los, his);
+          pnga_release_update(g_b, los, his);
         }
         /*** due to generality of this transformation scatter is required ***/
       } else{
@@ -444,13 +445,13 @@ void pnga_copy_patch(char *trans,
           src_idx_ptr = (Integer*) pnga_malloc((andim*nelem), MT_F_INT, "si");
           dst_idx_ptr = (Integer*) pnga_malloc((bndim*nelem), MT_F_INT, "di");
 
-          /* calculate the destination indices */
+          /* calculate the indices in g_a of the local elements of g_b */
 
           /* given los and his, find indices for each elements
            * bvalue: starting index in each dimension
            * bunit: stride in each dimension
            */
-          for (i=0; i<andim; i++) {
+          for (i=0; i<bndim; i++) {
             bvalue[i] = los[i];
             if (i == 0) bunit[i] = 1;
             else bunit[i] = bunit[i-1] * (his[i-1] - los[i-1] + 1);
@@ -459,7 +460,7 @@ void pnga_copy_patch(char *trans,
           /* destination indices */
           for (i=0; i<nelem; i++) {
             for (j=0; j<bndim; j++){
-              src_idx_ptr[i*bndim+j] = bvalue[j];
+              dst_idx_ptr[i*bndim+j] = bvalue[j];
               /* if the next element is the first element in
                * one dimension, increment the index by 1
                */
@@ -471,81 +472,79 @@ void pnga_copy_patch(char *trans,
             }
           }
 
-          /* index factor: reshaping without transpose */
+          /* index factor of the destination patch */
           factor_idx1[0] = 1;
           for (j=1; j<bndim; j++) 
             factor_idx1[j] = factor_idx1[j-1] * bld[j-1];
 
-          /* index factor: reshaping with transpose */
-          factor_idx2[bndim-1] = 1;
-          for (j=(bndim-1)-1; j>=0; j--)
-            factor_idx2[j] = factor_idx2[j+1] * bld[j+1];
-
           /* data factor */
           factor_data[0] = 1;
           for (j=1; j<bndim; j++) 
             factor_data[j] = factor_data[j-1] * ld[j-1];
 
-          /* destination indices */
+          /* source indices */
           for(i=0; i<nelem; i++) {
             /* linearize the n-dimensional indices to one dimension */
             idx = 0;
-            if (*trans == 'n' || *trans == 'N')
-              for (j=0; j<andim; j++) 
-                idx += (src_idx_ptr[i*bndim+j] - blo[j]) *
-                  factor_idx1[j];
-            else
-              /* if the patch needs to be transposed, reverse
-               * the indices: (i, j, ...) -> (..., j, i)
-               */
-              for (j=(andim-1); j>=0; j--) 
-                idx += (src_idx_ptr[i*bndim+j] - blo[j]) *
-                  factor_idx2[j];
+            for (j=0; j<bndim; j++) 
+              idx += (dst_idx_ptr[i*bndim+j] - blo[j]) *
+                factor_idx1[j];
 
             /* convert the one dimensional index to n-dimensional
-             * indices of destination
+             * indices of source
              */
-            for (j=0; j<andim; j++) {
-              dst_idx_ptr[i*bndim+j] = idx % ald[j] + alo[j]; 
-              idx /= ald[j];
+            if (*trans == 'n' || *trans == 'N') {
+              for (j=0; j<andim; j++) {
+                src_idx_ptr[i*andim+j] = idx % ald[j] + alo[j]; 
+                idx /= ald[j];
+              }
+            } else {
+              /* if the patch needs to be transposed, reverse
+               * the indices: (i, j, ...) -> (..., j, i)
+               */
+              for (j=(andim-1); j>=0; j--) {
+                src_idx_ptr[i*andim+j] = idx % ald[j] + alo[j]; 
+                idx /= ald[j];
+              }
             }
+          }
 
-            /* move the data block to create a new block */
+          /* fetch the elements and move them into the local patch */
+          pnga_gather(g_a, tmp_ptr, src_idx_ptr, 0, nelem);
+          for(i=0; i<nelem; i++) {
             /* linearize the data indices */
             idx = 0;
             for (j=0; j<bndim; j++) 
-              idx += (src_idx_ptr[i*bndim+j]) * factor_data[j];
+              idx += (dst_idx_ptr[i*bndim+j]) * factor_data[j];
 
             /* adjust the position
              * base: starting address of the first element */
             idx -= base;
 
-            /* move the element to the temporary location */
             switch(atype) {
-              case C_DBL: ((double*)tmp_ptr)[i] =
-                          ((double*)src_data_ptr)[idx]; 
+              case C_DBL: ((double*)src_data_ptr)[idx] =
+                          ((double*)tmp_ptr)[i]; 
                           break;
               case C_INT:
-                          ((int *)tmp_ptr)[i] = ((int *)src_data_ptr)[idx];
+                          ((int *)src_data_ptr)[idx] = ((int *)tmp_ptr)[i];
                           break;
-              case C_DCPL:((DoubleComplex *)tmp_ptr)[i] =
-                          ((DoubleComplex *)src_data_ptr)[idx];
+              case C_DCPL:((DoubleComplex *)src_data_ptr)[idx] =
+                          ((DoubleComplex *)tmp_ptr)[i];
                           break;
-              case C_SCPL:((SingleComplex *)tmp_ptr)[i] =
-                          ((SingleComplex *)src_data_ptr)[idx];
+              case C_SCPL:((SingleComplex *)src_data_ptr)[idx] =
+                          ((SingleComplex *)tmp_ptr)[i];
                           break;
-              case C_FLOAT: ((float *)tmp_ptr)[i] =
-                            ((float *)src_data_ptr)[idx]; 
+              case C_FLOAT: ((float *)src_data_ptr)[idx] =
+                            ((float *)tmp_ptr)[i]; 
                           break;
-              case C_LONG: ((long *)tmp_ptr)[i] =
-                           ((long *)src_data_ptr)[idx];     
+              case C_LONG: ((long *)src_data_ptr)[idx] =
+                           ((long *)tmp_ptr)[i];     
                           break;
-              case C_LONGLONG: ((long long *)tmp_ptr)[i] =
-                           ((long long *)src_data_ptr)[idx];     
+              case C_LONGLONG: ((long long *)src_data_ptr)[idx] =
+                           ((long long *)tmp_ptr)[i];     
             }
           }
-          pnga_release(g_b, los, his);
-          pnga_gather(g_a, tmp_ptr, dst_idx_ptr, 0, nelem);
+          pnga_release_update(g_b, los, his);
           pnga_free(dst_idx_ptr);
           pnga_free(src_idx_ptr);
           pnga_free(tmp_ptr);
@@ -761,13 +760,13 @@ void pnga_copy_patch(char *trans,
         while (pnga_local_iterator_next(&hdl_b, los, his,
               &src_data_ptr, ld)) {
             /* Copy limits since patch intersect modifies los array */
-            for (j=0; j < andim; j++) {
+            for (j=0; j < bndim; j++) {
               lod[j] = los[j];
               hid[j] = his[j];
             }
-            if (pnga_patch_intersect(blo,bhi,los,his,andim)) {
+            if (pnga_patch_intersect(blo,bhi,los,his,bndim)) {
               offset = 0;
-              last = andim - 1;
+              last = bndim - 1;
               jtot = 1;
               for (j=0; j<last; j++) {
                 offset += (los[j]-lod[j])*jtot;
-- 
2.43.0


From 79a948e937b712166136e1bc90e2b272034e6eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 012/126] fix: norm1 and norm_infinity consider all blocks of a
 process

---
 global/src/matrix.c | 20 --------------------
 1 file changed, 20 deletions(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index 377dca2..814fe30 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -800,7 +800,6 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       float ftemp;
       case C_INT:
       pi = (int *) ptr;
-      *isum = GA_ABS(pi[0]);
       for (j = 0; j < jhiA - jloA + 1; j++) {
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pi[j*ld + i]) > *isum) *isum = GA_ABS(pi[j*ld+i]);
@@ -808,17 +807,12 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_LONG:
       pl = (long *) ptr;
-      *lsum = GA_ABS(pl[0]);
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pl[j*ld + i]) > *lsum) *lsum = GA_ABS(pl[j*ld+i]);
       break;
       case C_DCPL:
       pz = (DoubleComplex *) ptr;
-      zval = pz[0];
-      dtemp =
-        sqrt (zval.real * zval.real + zval.imag * zval.imag);
-      (*zsum).real = dtemp;
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
         {
@@ -830,10 +824,6 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_SCPL:
       pc = (SingleComplex *) ptr;
-      cval =  pc[0];
-      ftemp =
-        sqrt (cval.real * cval.real + cval.imag * cval.imag);
-      (*csum).real = ftemp;
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
         {
@@ -845,14 +835,12 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_FLOAT:
       pf = (float *) ptr;
-      *fsum = pf[0];
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pf[j*ld+i]) > *fsum) *fsum = GA_ABS(pf[j*ld+i]);
       break;
       case C_DBL:
       pd = (double *) ptr;
-      *dsum = pd[0];
       for (i = 0; i < ihiA - iloA + 1; i++)
         for (j = 0; j < jhiA - jloA + 1; j++)
           if (GA_ABS(pd[j*ld+i]) > *dsum) *dsum = GA_ABS(pd[j*ld+i]);
@@ -1117,22 +1105,18 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
       SingleComplex *pc;
       case C_INT:
         pi = (int *) ptr;
-        *isum = 0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *isum += GA_ABS (pi[j * ld + i]);
         break;
       case C_LONG:
         pl = (long *) ptr;
-        *lsum = 0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *lsum += GA_ABS (pl[j * ld + i]);
         break;
       case C_DCPL:
         pz = (DoubleComplex *) ptr;
-        (*zsum).real = 0.0;
-        (*zsum).imag = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
           {
@@ -1144,8 +1128,6 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
         break;
       case C_SCPL:
         pc = (SingleComplex *) ptr;
-        (*csum).real = 0.0;
-        (*csum).imag = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
           {
@@ -1157,14 +1139,12 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
         break;
       case C_FLOAT:
         pf = (float *) ptr;
-        *fsum = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *fsum += GA_ABS (pf[j * ld + i]);
         break;
       case C_DBL:
         pd = (double *) ptr;
-        *dsum = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *dsum += GA_ABS (pd[j * ld + i]);
-- 
2.43.0


From 0b2eaaac0cf84e5b97cb361137f795d3f415099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 013/126] fix: select_elem honours leading dimensions and
 tracks the index per block

---
 global/src/select.c | 59 ++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/global/src/select.c b/global/src/select.c
index e287928..2289fab 100644
--- a/global/src/select.c
+++ b/global/src/select.c
@@ -284,37 +284,52 @@ void pnga_select_elem(Integer g_a, char* op, void* val, Integer *subscript)
   first_pass = 1;
   pnga_local_iterator_init(g_a, &hdl_a);
   while (pnga_local_iterator_next(&hdl_a, lo, hi, &cptr, ld)) {
-    Integer update;
-    GET_ELEMS(ndim,lo,hi,ld,&elems);
+    Integer update, offset, factor, idx[MAXDIM];
     participate =1;
-    ptr = (void*)cptr;
 
-    if (first_pass) {
-      /* select local element */
-      snga_select_elem(type, op, ptr, elems, &info, &ind);
-
-      /* determine element subscript in the ndim-array */
-      for(i = 0; i < ndim; i++){
-        int elems = (int)( hi[i]-lo[i]+1);
-        info.subscr[i] = ind%elems + lo[i] ;
-        ind /= elems;
+    /* the elements of a block are only contiguous along the first dimension
+     * if the array has ghost cells or a ScaLAPACK data distribution, so
+     * examine one run of contiguous elements at a time */
+    elems = hi[0]-lo[0]+1;
+    for(i = 0; i < ndim; i++) idx[i] = lo[i];
+    while (idx[ndim-1] <= hi[ndim-1]) {
+      offset = 0;
+      factor = 1;
+      for(i = 1; i < ndim; i++){
+        factor *= ld[i-1];
+        offset += (idx[i]-lo[i])*factor;
       }
-    } else {
-      /* select local element */
-      snga_select_elem(type, op, ptr, elems, &new_info, &ind);
+      ptr = (void*)(cptr + offset*GAsizeofM(type));
+      ind = 0;
+
+      if (first_pass) {
+        /* select element in run */
+        snga_select_elem(type, op, ptr, elems, &info, &ind);
+        update = 1;
+      } else {
+        /* select element in run */
+        snga_select_elem(type, op, ptr, elems, &new_info, &ind);
 
-      /* compare with old block */
-      snga_compare_elem(type,op, &new_info, &info, &update);
+        /* compare with previous runs */
+        snga_compare_elem(type,op, &new_info, &info, &update);
+      }
       /* determine element subscript in the ndim-array */
       if (update) {
-        for(i = 0; i < ndim; i++){
-          int elems = (int)( hi[i]-lo[i]+1);
-          info.subscr[i] = ind%elems + lo[i] ;
-          ind /= elems;
+        info.subscr[0] = lo[0] + ind;
+        for(i = 1; i < ndim; i++) info.subscr[i] = idx[i];
+      }
+      first_pass = 0;
+
+      /* move to next run */
+      if (ndim == 1) break;
+      idx[1]++;
+      for(i = 1; i < ndim-1; i++){
+        if (idx[i] > hi[i]) {
+          idx[i] = lo[i];
+          idx[i+1]++;
         }
       }
     }
-    first_pass = 0;
   }
 #if 0
   if (num_blocks < 0) {
-- 
2.43.0


From 914671c22464d306a7635a39d49c1086e8ebf32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 014/126] fix: armci_msg_sel_scope ignores non-contributing
 processes and supports long long

---
 comex/src-armci/message.c | 64 +++++++++++++++------------------------
 1 file changed, 24 insertions(+), 40 deletions(-)

diff --git a/comex/src-armci/message.c b/comex/src-armci/message.c
index f1ffcb8..8dcdea5 100644
--- a/comex/src-armci/message.c
+++ b/comex/src-armci/message.c
@@ -6,6 +6,8 @@
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#include <float.h>
+#include <limits.h>
 
 #include <mpi.h>
 
@@ -23,9 +25,6 @@ static ARMCI_Group ARMCI_GROUP_SELF = -2;
 
 extern int ARMCI_Default_Proc_Group;
 
-/* for armci_msg_sel_scope */
-static MPI_Datatype MPI_LONGLONG_INT;
-
 /* Information on nodes */
 extern int _number_of_procs_per_node;
 extern int _my_node_id;
@@ -254,7 +253,6 @@ void armci_msg_bcast(void *buf, int len, int root)
  */
 void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int contribute)
 {
-    static int initialized = 0;
     MPI_Op mpi_op = MPI_OP_NULL;
     MPI_Comm comm = get_default_comm();
 
@@ -266,57 +264,43 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
       }
     }
 
-    /* first time this function is called we establish the
-     * long long w/ int type that MPI doesn't provide by default */
-    if (!initialized) {
-        int block[2];
-        MPI_Aint disp[2];
-        MPI_Datatype type[2];
-
-        initialized = 1;
-        type[0] = MPI_LONG_LONG;
-        type[1] = MPI_INT;
-        disp[0] = 0;
-        disp[1] = sizeof(long long);
-        block[0] = 1;
-        block[1] = 1;
-#if defined(MPI_VERSION) && (MPI_VERSION >= 2)
-        MPI_Type_create_struct(2, block, disp, type, &MPI_LONGLONG_INT);
-#else
-        MPI_Type_struct(2, block, disp, type, &MPI_LONGLONG_INT);
-#endif
-    }
-
     if (strncmp(op, "min", 3) == 0) {
-        mpi_op = MPI_MINLOC;
+        mpi_op = MPI_MIN;
     }
     else if (strncmp(op, "max", 3) == 0) {
-        mpi_op = MPI_MAXLOC;
+        mpi_op = MPI_MAX;
     }
     else {
         comex_error("unsupported armci_msg_sel_scope operation", 1);
     }
 
-#define SELECT(ARMCI_TYPE, C_TYPE, MPI_TYPE)                    \
+    /* processes that do not contribute a value take part in the reductions
+     * with the value that is never selected */
+#define SELECT(ARMCI_TYPE, C_TYPE, MPI_TYPE, C_MIN, C_MAX)      \
     if (type == ARMCI_TYPE) {                                   \
-        struct {                                                \
-            C_TYPE val;                                         \
-            int rank;                                           \
-        } in, out;                                              \
-        in.val = *((C_TYPE*)x);                                 \
-        in.rank = get_default_rank();                           \
+        C_TYPE in, out;                                         \
+        int rank, root;                                         \
+        if (contribute) {                                       \
+            in = *((C_TYPE*)x);                                 \
+        } else {                                                \
+            in = (MPI_MIN == mpi_op) ? (C_MAX) : (C_MIN);       \
+        }                                                       \
         if (SCOPE_NODE != scope) {                              \
             comex_barrier(ARMCI_Default_Proc_Group);            \
         }                                                       \
         MPI_Allreduce(&in, &out, 1, MPI_TYPE, mpi_op, comm);    \
-        armci_msg_bcast(x, n, out.rank);                        \
+        /* first process that contributed the selected value */ \
+        rank = (contribute && in == out) ? get_default_rank() : INT_MAX; \
+        MPI_Allreduce(&rank, &root, 1, MPI_INT, MPI_MIN, comm); \
+        if (INT_MAX == root) root = 0;                          \
+        armci_msg_bcast(x, n, root);                            \
     }                                                           \
     else
-    SELECT(ARMCI_INT,       int,        MPI_2INT)
-    SELECT(ARMCI_LONG,      long,       MPI_LONG_INT)
-    SELECT(ARMCI_LONG_LONG, long long,  MPI_LONGLONG_INT)
-    SELECT(ARMCI_FLOAT,     float,      MPI_FLOAT_INT)
-    SELECT(ARMCI_DOUBLE,    double,     MPI_DOUBLE_INT)
+    SELECT(ARMCI_INT,       int,        MPI_INT,       INT_MIN,   INT_MAX)
+    SELECT(ARMCI_LONG,      long,       MPI_LONG,      LONG_MIN,  LONG_MAX)
+    SELECT(ARMCI_LONG_LONG, long long,  MPI_LONG_LONG, LLONG_MIN, LLONG_MAX)
+    SELECT(ARMCI_FLOAT,     float,      MPI_FLOAT,     -FLT_MAX,  FLT_MAX)
+    SELECT(ARMCI_DOUBLE,    double,     MPI_DOUBLE,    -DBL_MAX,  DBL_MAX)
     {
         comex_error("unsupported SELECT operation", 1);
     }
-- 
2.43.0


From 848885ed99d7756401d154d9c80fa70e23565549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 015/126] fix: step_max_patch and step_bound_info_patch use
 uninitialized elements outside the patch; integer step_max truncates
 unconstrained steps

---
 global/src/elem_alg.c | 68 +++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 16 deletions(-)

diff --git a/global/src/elem_alg.c b/global/src/elem_alg.c
index a831461..cdf5fcd 100644
--- a/global/src/elem_alg.c
+++ b/global/src/elem_alg.c
@@ -1323,7 +1323,11 @@ static void do_step_divide(void *pA, void *pB, void *pC, Integer nelems, Integer
 	  ((int*)pC)[i]=i_0;
 	}
       } else {
-	if(((int*)pB)[i]!=i_0)
+	/* the quotient of two positive integers may be truncated to zero,
+	   which would be taken for an exhausted step. */
+	if(((int*)pA)[i]>i_0 && ((int*)pB)[i]>i_0)
+	  ((int*)pC)[i] = GA_INFINITY_I;
+	else if(((int*)pB)[i]!=i_0)
 	  ((int*)pC)[i] = ((int*)pA)[i]/((int*)pB)[i];
 	else{
 	  ((int*)pC)[i]=GA_INFINITY_I;
@@ -1360,7 +1364,11 @@ static void do_step_divide(void *pA, void *pB, void *pC, Integer nelems, Integer
 	  ((long *)pC)[i] = l_0;
 	}
       } else {
-	if(((long *)pB)[i]!=l_0)
+	/* the quotient of two positive integers may be truncated to zero,
+	   which would be taken for an exhausted step. */
+	if(((long *)pA)[i]>l_0 && ((long *)pB)[i]>l_0)
+	  ((long *)pC)[i] = GA_INFINITY_L;
+	else if(((long *)pB)[i]!=l_0)
 	  ((long *)pC)[i]=  ((long *)pA)[i]/((long *)pB)[i];
 	else{
 	  ((long *)pC)[i] = GA_INFINITY_L;
@@ -3146,6 +3154,11 @@ void pnga_step_bound_info_patch(
      void *sresult = NULL;
      void *sresult2 = NULL;
      void *alpha = NULL,*beta = NULL;
+     int     iinfinity = GA_INFINITY_I;
+     long    linfinity = GA_INFINITY_L;
+     float   finfinity = GA_INFINITY_F;
+     double  dinfinity = GA_INFINITY_D;
+     void *infinity = NULL;
      int local_sync_begin,local_sync_end;
      int i;
 
@@ -3247,6 +3260,7 @@ void pnga_step_bound_info_patch(
 	 sresult2 = &iresult2;
 	 alpha    = &ialpha;
 	 beta     = &ibeta;
+	 infinity = &iinfinity;
 	 break;
        case C_DCPL:
        case C_SCPL:
@@ -3258,18 +3272,21 @@ void pnga_step_bound_info_patch(
 	 sresult2 = &dresult2;
 	 alpha    = &dalpha;
 	 beta     = &dbeta;
+	 infinity = &dinfinity;
 	 break;
        case C_FLOAT:
 	 sresult = &fresult;
 	 sresult2 = &fresult2;
 	 alpha    = &falpha;
 	 beta     = &fbeta;
+	 infinity = &finfinity;
 	 break;
        case C_LONG:
 	 sresult = &lresult;
 	 sresult2 = &lresult2;
 	 alpha    = &lalpha;
 	 beta     = &lbeta;
+	 infinity = &linfinity;
 	 break;
        default:
 	 pnga_error("Ga_step_max_patch_: alpha/beta set wrong data type.", xxtype);
@@ -3304,12 +3321,15 @@ void pnga_step_bound_info_patch(
      if(has_negative_elem(g_S, xxlo, xxhi) == 1)
        pnga_error("pnga_step_bound_info_patch: Upper bound is not > xx.", -1);
 
-     /* Then compute t = positve elements of vv */
-     pnga_zero(g_T);
-     pnga_elem_maximum(g_vv,g_T,g_T);
+     /* Then compute t = positve elements of vv. Elements outside the patch
+       are set to infinity so that they are never selected as the minimum.
+     */
+     pnga_fill(g_T, infinity);
+     pnga_zero_patch(g_T, xxlo, xxhi);
+     pnga_elem_maximum_patch(g_vv, vvlo, vvhi, g_T, xxlo, xxhi, g_T, xxlo, xxhi);
 
      /* Then, compute (xu-xx)/vv */
-     pnga_elem_stepb_divide_patch(g_S, xxlo, xxhi, g_T, vvlo, vvhi, g_T, xxlo, xxhi); 
+     pnga_elem_stepb_divide_patch(g_S, xxlo, xxhi, g_T, xxlo, xxhi, g_T, xxlo, xxhi); 
 
      /* Then, we will select the minimum of the array g_t*/ 
      pnga_select_elem(g_T, "min", sresult, &index[0]); 
@@ -3350,12 +3370,13 @@ void pnga_step_bound_info_patch(
        pnga_error("pnga_step_bound_info_patch: Lower bound is not < xx.", -1);
 
      /* Then compute r = negative elements of vv */
-     pnga_zero(g_R);
-     pnga_elem_minimum(g_vv,g_R,g_R);
-     pnga_abs_value(g_R);
+     pnga_fill(g_R, infinity);
+     pnga_zero_patch(g_R, xxlo, xxhi);
+     pnga_elem_minimum_patch(g_vv, vvlo, vvhi, g_R, xxlo, xxhi, g_R, xxlo, xxhi);
+     pnga_abs_value_patch(g_R, xxlo, xxhi);
 
      /* Then, compute (xx-xl)/vv */
-     pnga_elem_stepb_divide_patch(g_Q, xxlo, xxhi, g_R, vvlo, vvhi, g_R, xxlo, xxhi); 
+     pnga_elem_stepb_divide_patch(g_Q, xxlo, xxhi, g_R, xxlo, xxhi, g_R, xxlo, xxhi); 
      /* Then, we will select the minimum of the array g_t*/ 
      pnga_select_elem(g_R, "min", sresult2, &index[0]); 
      switch (xxtype)
@@ -3384,19 +3405,19 @@ void pnga_step_bound_info_patch(
        Now set T to be the elementwise minimum of R and T. 
        So, T is infinity only where ever g_vv is zero.
      */
-     pnga_elem_minimum(g_R,g_T,g_T);
+     pnga_elem_minimum_patch(g_R, xxlo, xxhi, g_T, xxlo, xxhi, g_T, xxlo, xxhi);
      /*
        Now we want to set T to be zero whenever g_vv was zero
        and gxx coincides with either boundary vector.
        Set S to be the element-wise product of S and Q.
        It will be zero when either of them is zero.
      */
-     pnga_elem_multiply(g_Q,g_S,g_S);
+     pnga_elem_multiply_patch(g_Q, xxlo, xxhi, g_S, xxlo, xxhi, g_S, xxlo, xxhi);
      /*
        Set Q to the |vv|.
      */
-     pnga_copy(g_vv,g_Q);
-     pnga_abs_value(g_Q);
+     pnga_copy_patch("n", g_vv, vvlo, vvhi, g_Q, xxlo, xxhi);
+     pnga_abs_value_patch(g_Q, xxlo, xxhi);
      /* 
        Now add q and s to get a vector that is zero only
        where g_vv was zero and g_xx meets one of the
@@ -3443,9 +3464,12 @@ void pnga_step_bound_info_patch(
        }
      /* 
        Then, we will select the maximum of the array g_t, that will
-       be boundmax .
+       be boundmax . All elements of t are nonnegative, so the zeros
+       outside the patch do not affect the maximum.
      */ 
-     pnga_select_elem(g_T, "max", sresult, &index[0]); 
+     pnga_zero(g_Q);
+     pnga_copy_patch("n", g_T, xxlo, xxhi, g_Q, xxlo, xxhi);
+     pnga_select_elem(g_Q, "max", sresult, &index[0]); 
      switch (xxtype)
        {
        case C_INT:
@@ -3513,7 +3537,12 @@ void pnga_step_max_patch(g_a,  alo, ahi, g_b,  blo, bhi, result)
   int local_sync_begin,local_sync_end;
   int i;
   Integer compatible;
+  int     iminf = -GA_INFINITY_I;
+  long    lminf = -GA_INFINITY_L;
+  float   fminf = -GA_INFINITY_F;
+  double  dminf = -GA_INFINITY_D;
   void *sresult = NULL;
+  void *minf = NULL;
 
   local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
@@ -3563,6 +3592,7 @@ void pnga_step_max_patch(g_a,  alo, ahi, g_b,  blo, bhi, result)
   {
     case C_INT:
       sresult = &iresult;
+      minf = &iminf;
       break;
     case C_DCPL:
     case C_SCPL:
@@ -3571,12 +3601,15 @@ void pnga_step_max_patch(g_a,  alo, ahi, g_b,  blo, bhi, result)
       break;
     case C_DBL:
       sresult = &dresult;
+      minf = &dminf;
       break;
     case C_FLOAT:
       sresult = &fresult;
+      minf = &fminf;
       break;
     case C_LONG:
       sresult = &lresult;
+      minf = &lminf;
       break;
     default:
       pnga_error("Ga_step_max_patch_: wrong data type.", atype);
@@ -3621,6 +3654,9 @@ void pnga_step_max_patch(g_a,  alo, ahi, g_b,  blo, bhi, result)
     if(g_c==0)
       pnga_error("ga_step_max_patch_:fail to duplicate array c", g_a);
 
+    /* elements of g_c outside the patch must not be selected below */
+    pnga_fill(g_c, minf);
+
     /*
        pnga_elem_divide_patch(g_a, alo, ahi, g_b, blo, bhi, g_c, alo, ahi);
      */
-- 
2.43.0


From ceaeab69cad9b2696177ba2efa66b9d0c68a0863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 016/126] fix: dot_patch of arrays with different ghost widths
 or numbers of dimensions

---
 global/src/global.npatch.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/global/src/global.npatch.c b/global/src/global.npatch.c
index 8fcb464..c6661b3 100644
--- a/global/src/global.npatch.c
+++ b/global/src/global.npatch.c
@@ -1237,6 +1237,10 @@ void pnga_dot_patch(Integer g_a, char *t_a, Integer *alo, Integer *ahi, Integer
         pnga_comp_patch(andim, alo, ahi, bndim, blo, bhi)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
+    /* the local patches must also be stored with the same leading dimensions
+     * (ghost cells may differ) and have the same number of dimensions */
+    if (g_a != g_b && (andim != bndim || pnga_has_ghosts(g_a) ||
+          pnga_has_ghosts(g_b))) compatible = 0;
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
     if(!(compatible && (transp=='n'))) {
       /* either patches or distributions do not match:
-- 
2.43.0


From d324815fa1abca8d5bdfbb2271dbe951fb6f3eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 017/126] fix: matrix multiplication with block-cyclic arrays
 ignores patch offsets, overruns buffers and keeps NaN when beta is zero

---
 global/src/matmul.c | 59 ++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/global/src/matmul.c b/global/src/matmul.c
index 0c8dc5f..5a19435 100644
--- a/global/src/matmul.c
+++ b/global/src/matmul.c
@@ -2578,7 +2578,7 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
   Integer adims[GA_MAX_DIM],bdims[GA_MAX_DIM],cdims[GA_MAX_DIM],tmpld[GA_MAX_DIM];
   Integer n, m, k, nb, adim, bdim, cdim, arank, brank, crank;
   Integer loC[MAXDIM], hiC[MAXDIM], lot[MAXDIM], hit[MAXDIM], lC[MAXDIM];
-  Integer nlo, loA[MAXDIM], hiA[MAXDIM], loB[MAXDIM], hiB[MAXDIM];
+  Integer nlo, kblk, loA[MAXDIM], hiA[MAXDIM], loB[MAXDIM], hiB[MAXDIM];
   DoubleComplex ONE_Z;
   SingleComplex ONE_F;
   BlasInt idim_t, jdim_t, kdim_t, adim_t, bdim_t, cdim_t;
@@ -2656,8 +2656,17 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
     pnga_error("Outer dimensions of A and B do not match dimensions of C ",0);
   }
 
-  /* Scale patch of C by beta */
-  pnga_scale_patch(g_c,clo,chi,beta);
+  /* Scale patch of C by beta. If beta is zero the old contents are ignored */
+  if ((atype == C_FLOAT && *(float*)beta == 0.0) ||
+      (atype == C_DBL && *(double*)beta == 0.0) ||
+      (atype == C_SCPL && ((SingleComplex*)beta)->real == 0.0 &&
+       ((SingleComplex*)beta)->imag == 0.0) ||
+      (atype == C_DCPL && ((DoubleComplex*)beta)->real == 0.0 &&
+       ((DoubleComplex*)beta)->imag == 0.0)) {
+    pnga_zero_patch(g_c,clo,chi);
+  } else {
+    pnga_scale_patch(g_c,clo,chi,beta);
+  }
 
   /* Multiplication is feasible. Start iterating over patches of C */
   pnga_local_iterator_init(g_c, &hdl_c);
@@ -2665,15 +2674,14 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
     Integer num_blocks;
     Integer offset, elemsize, ld;
     void *a_buf, *b_buf, *c_buf;
-    Integer size_a, size_b, size_c;
     /*
     printf("p[%d] loC[0]: %d hiC[0]: %d loC[1]: %d hiC[1]: %d lC[0]: %d\n",
         pnga_nodeid(),loC[0],hiC[0],loC[1],hiC[1],lC[0]);
         */
-    /* Copy limits since patch intersect modifies loC array */
+    /* Copy limits of patch since patch intersect modifies second set of limits */
     for (n=0; n<crank; n++) {
-      lot[n] = loC[n];
-      hit[n] = hiC[n];
+      lot[n] = clo[n];
+      hit[n] = chi[n];
     }
 
     /* check to see if this block overlaps with patch on C */
@@ -2682,19 +2690,19 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
 
       /* Calculating number of blocks for inner dimension. Assume that 
        * number of rows in block returned by iterator is a good size */
-      num_blocks = (ahi[1]-alo[1]+1)/(hit[0]-lot[0]+1);
-      if (num_blocks*(hit[0]-lot[0]+1) < ahi[1]-alo[1]+1) num_blocks++;
+      kblk = hit[0]-lot[0]+1;
+      num_blocks = (ahi[1]-alo[1]+1)/kblk;
+      if (num_blocks*kblk < ahi[1]-alo[1]+1) num_blocks++;
 
       /* Calculate offset from  src_ptr to beginning of lot */ 
       offset = lC[0]*(lot[1]-loC[1])+lot[0]-loC[0];
       elemsize = GAsizeofM(atype);
       c_buf = (void*)((char*)src_ptr + elemsize*offset);
-      a_buf = (void*)malloc((hit[0]-lot[0]+1)*(hit[1]-lot[1]+1)*elemsize);
-      b_buf = (void*)malloc((hit[0]-lot[0]+1)*(hit[1]-lot[1]+1)*elemsize);
-      size_c = (hit[0]-lot[0]+1)*(hit[1]-lot[1]+1);
+      a_buf = (void*)malloc((hit[0]-lot[0]+1)*kblk*elemsize);
+      b_buf = (void*)malloc(kblk*(hit[1]-lot[1]+1)*elemsize);
 
       /* calculate starting block index */
-      istart = (lot[0]-clo[0])/(hit[0]-lot[0]+1);
+      istart = (lot[0]-clo[0])/kblk;
 
       /* loop over block pairs */
       for (nb=0; nb<num_blocks; nb++) {
@@ -2704,17 +2712,13 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
         */
         in = istart + nb;
         in = in%num_blocks;
-        nlo = alo[1]+in*(hit[0]-lot[0]+1);
-        loA[0] = lot[0];
-        hiA[0] = hit[0];
+        nlo = alo[1]+in*kblk;
+        loA[0] = alo[0]+lot[0]-clo[0];
+        hiA[0] = alo[0]+hit[0]-clo[0];
         loA[1] = nlo;
-        hiA[1] = loA[1]+(hit[0]-lot[0]);
+        hiA[1] = loA[1]+kblk-1;
         if (hiA[1] > ahi[1]) hiA[1] = ahi[1];
         ld = hiA[0]-loA[0]+1;
-        size_a = (hiA[0]-loA[0]+1)*(hiA[1]-loA[1]+1);
-        if (size_a > size_c) {
-          printf("p[%d] size_a: %d size_c: %d\n",(int)pnga_nodeid(),(int)size_a,(int)size_c);
-        }
         /*
     printf("p[%d] loA[0]: %d hiA[0]: %d loA[1]: %d hiA[1]: %d\n",pnga_nodeid(),
         loA[0],hiA[0],loA[1],hiA[1]);
@@ -2723,18 +2727,13 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
         /*
         printBlock("Matrix A",atype,a_buf,loA,hiA,&ld);
         */
-        loB[1] = lot[1];
-        hiB[1] = hit[1];
-        nlo = blo[0]+in*(hit[0]-lot[0]+1);
+        loB[1] = blo[1]+lot[1]-clo[1];
+        hiB[1] = blo[1]+hit[1]-clo[1];
+        nlo = blo[0]+in*kblk;
         loB[0] = nlo;
-        hiB[0] = loB[0]+(hit[0]-lot[0]);
+        hiB[0] = loB[0]+kblk-1;
         if (hiB[0] > bhi[0]) hiB[0] = bhi[0];
         ld = hiB[0]-loB[0]+1;
-        size_b = (hiB[0]-loB[0]+1)*(hiB[1]-loB[1]+1);
-        if (size_b > size_c) {
-          printf("p[%d] size_b: %d size_c: %d\n",(int)pnga_nodeid(),
-              (int)size_b,(int)size_c);
-        }
         /*
     printf("p[%d] loB[0]: %d hiB[0]: %d loB[1]: %d hiB[1]: %d\n",pnga_nodeid(),
         loB[0],hiB[0],loB[1],hiB[1]);
-- 
2.43.0


From 0e4541eb229e59f77dde84370a250d61f56f1fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 018/126] fix: GA_Symmetrize ignores leading dimensions of
 arrays with ghost cells

---
 global/src/ga_symmetr.c | 43 ++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/global/src/ga_symmetr.c b/global/src/ga_symmetr.c
index 9b29a88..609ebf7 100644
--- a/global/src/ga_symmetr.c
+++ b/global/src/ga_symmetr.c
@@ -18,27 +18,34 @@
 #include "ga-wapi.h"
 
 static void gai_add(
-        Integer *lo, Integer *hi, void *a, void *b, DoublePrecision alpha,
-        Integer type, Integer nelem, Integer ndim)
+        Integer *lo, Integer *hi, void *a, Integer *lda, void *b,
+        DoublePrecision alpha, Integer nelem, Integer ndim)
 {
-  Integer i, j, m=0;
-  Integer nrow, ncol, indexA=0, indexB=0;
+  Integer i, j, indexA, indexB, offsetA, offsetB;
+  Integer sub[GA_MAX_DIM], ext[GA_MAX_DIM];
   DoublePrecision *A = (DoublePrecision *)a, *B = (DoublePrecision*)b;
-  Integer offset1=1, offset2=1;
 
-  nrow = hi[ndim-2] - lo[ndim-2] + 1;
-  ncol = hi[ndim-1] - lo[ndim-1] + 1;
-  
-  for(i=0; i<ndim-2; i++) {
-    offset1 *= hi[i] - lo[i] + 1;
-    offset2 *= hi[i] - lo[i] + 1;
+  for(j=0; j<ndim; j++) {
+    sub[j] = 0;
+    ext[j] = hi[j] - lo[j] + 1;
   }
-  offset1 *= nrow;
-  
-  for(j=0; j<offset2; ++j,indexA=j,indexB=j,m=0) {
-    for(i=0; i<nrow*ncol; i++, indexA += offset1, indexB += offset2) {
-      if(indexA >= nelem) indexA = j + ++m*offset2;
-      A[indexA] = alpha *(A[indexA] + B[indexB]);
+  for(i=0; i<nelem; i++) {
+    /* A is strided by lda (it may have ghost cells), B is contiguous and
+     * has its last two dimensions interchanged */
+    indexA = indexB = 0;
+    offsetA = offsetB = 1;
+    for(j=0; j<ndim-2; j++) {
+      indexA += sub[j]*offsetA;
+      indexB += sub[j]*offsetB;
+      offsetA *= lda[j];
+      offsetB *= ext[j];
+    }
+    indexA += (sub[ndim-2] + sub[ndim-1]*lda[ndim-2])*offsetA;
+    indexB += (sub[ndim-1] + sub[ndim-2]*ext[ndim-1])*offsetB;
+    A[indexA] = alpha *(A[indexA] + B[indexB]);
+    for(j=0; j<ndim; j++) {
+      if(++sub[j] < ext[j]) break;
+      sub[j] = 0;
     }
   }
 }
@@ -105,7 +112,7 @@ void pnga_symmetrize(Integer g_a) {
     pnga_sync(); 
 
     if(have_data) {
-      gai_add(alo, ahi, a_ptr, b_ptr, alpha, type, nelem, ndim);
+      gai_add(alo, ahi, a_ptr, lda, b_ptr, alpha, nelem, ndim);
       pnga_release_update(g_a, alo, ahi);
       pnga_free(b_ptr);
     }
-- 
2.43.0


From cb9ccb04ab73fbcf59b982e27b4d85a751681061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 019/126] fix: median of arrays with different distributions
 stops; with block-cyclic arrays it overwrites elements outside the patch

---
 global/src/matrix.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index 814fe30..a16e3ca 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -404,7 +404,9 @@ void pnga_median_patch(
     pnga_distribution (g_C, me, loC, hiC);
     pnga_distribution (g_M, me, loM, hiM);
 
-    if (!pnga_comp_patch (andim, loA, hiA, mndim, loM, hiM)) compatible = 1;
+    if (pnga_comp_patch (andim, loA, hiA, mndim, loM, hiM) &&
+        pnga_comp_patch (andim, alo, ahi, mndim, mlo, mhi) &&
+        gai_comp_layout (g_A, g_m, loM, hiM)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -422,7 +424,9 @@ void pnga_median_patch(
       pnga_distribution (g_A, me, loA, hiA);
     }
 
-    if (!pnga_comp_patch (bndim, loB, hiB, mndim, loM, hiM)) compatible = 1;
+    if (pnga_comp_patch (bndim, loB, hiB, mndim, loM, hiM) &&
+        pnga_comp_patch (bndim, blo, bhi, mndim, mlo, mhi) &&
+        gai_comp_layout (g_B, g_m, loM, hiM)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -440,7 +444,9 @@ void pnga_median_patch(
       pnga_distribution (g_B, me, loB, hiB);
     }
 
-    if (!pnga_comp_patch (cndim, loC, hiC, mndim, loM, hiM)) compatible = 1;
+    if (pnga_comp_patch (cndim, loC, hiC, mndim, loM, hiM) &&
+        pnga_comp_patch (cndim, clo, chi, mndim, mlo, mhi) &&
+        gai_comp_layout (g_C, g_m, loM, hiM)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -525,7 +531,7 @@ void pnga_median_patch(
       pnga_local_iterator_next(&hdl_b,loB,hiB,&B_ptr,ldB);
       pnga_local_iterator_next(&hdl_c,loC,hiC,&C_ptr,ldC);
       pnga_local_iterator_next(&hdl_m,loM,hiM,&M_ptr,ldM);
-      Integer idx, lod[MAXDIM]/*, hid[MAXDIM]*/;
+      Integer lod[MAXDIM]/*, hid[MAXDIM]*/;
       Integer jtot, last;
       /* make temporary copies of loM and hiM since pnga_patch_intersect
          destroys original versions */
@@ -533,6 +539,7 @@ void pnga_median_patch(
         lod[j] = loM[j];
         /*hid[j] = hiM[j];*/
       }
+      if (!pnga_patch_intersect(mlo, mhi, loM, hiM, mndim)) continue;
 
       /* evaluate offsets for system */
       offset = 0;
-- 
2.43.0


From 5beecfb9df53de8bac6d5cd10aa3b9e01ff3eaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 020/126] fix: GA_Zero_diagonal zeroes elements off the
 diagonal when blocks do not start on it

---
 global/src/matrix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index a16e3ca..a9852b6 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -2306,6 +2306,7 @@ void pnga_zero_diagonal(Integer g_a)
       hi[0] = GA_MIN (hiA[0], hiA[1]);
       hi[1] = GA_MIN (hiA[0], hiA[1]);
       if (hi[0] >= lo[0]) {
+        offset = ld*(lo[1]-loA[1]) + lo[0]-loA[0];
         sgai_zero_diagonal_block(g_a, ptr, lo, hi, ld, offset, type);
       }
     }
-- 
2.43.0


From 13ffcafd91d98aa3d59479fd36692062357582dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 021/126] fix: GA_Scale_rows and GA_Scale_cols multiply complex
 values componentwise

---
 global/src/matrix.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index a9852b6..6f2f80d 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -2479,16 +2479,18 @@ static void sgai_scale_row_values(Integer type, Integer *lo,
           dca = (DoubleComplex *) ptr;
           for (i = 0; i < hi[0]-lo[0]+1; i++)
             for(j=0;j<hi[1]-lo[1]+1;j++) {
-              (dca[j*ld+i]).real *= (((DoubleComplex *) buf)[i]).real;
-              (dca[j*ld+i]).imag *= (((DoubleComplex *) buf)[i]).imag;
+              DoubleComplex x = dca[j*ld+i], y = ((DoubleComplex *) buf)[i];
+              (dca[j*ld+i]).real = x.real*y.real - x.imag*y.imag;
+              (dca[j*ld+i]).imag = x.real*y.imag + x.imag*y.real;
             }
           break;
         case C_SCPL:
           fca = (SingleComplex *) ptr;
           for (i = 0; i < hi[0]-lo[0]+1; i++)
             for(j=0;j<hi[1]-lo[1]+1;j++) {
-              (fca[j*ld+i]).real *= (((SingleComplex *) buf)[i]).real;
-              (fca[j*ld+i]).imag *= (((SingleComplex *) buf)[i]).imag;
+              SingleComplex x = fca[j*ld+i], y = ((SingleComplex *) buf)[i];
+              (fca[j*ld+i]).real = x.real*y.real - x.imag*y.imag;
+              (fca[j*ld+i]).imag = x.real*y.imag + x.imag*y.real;
             }
           break;
         default:
@@ -2685,8 +2687,9 @@ static void sgai_scale_col_values(Integer type, Integer *lo,
           for(j=0;j<hi[1]-lo[1]+1;j++)
             for (i = 0; i < hi[0]-lo[0]+1; i++)
             {
-              (dca[j*ld+i]).real *= (((DoubleComplex *) buf)[j]).real;
-              (dca[j*ld+i]).imag *= (((DoubleComplex *) buf)[j]).imag;
+              DoubleComplex x = dca[j*ld+i], y = ((DoubleComplex *) buf)[j];
+              (dca[j*ld+i]).real = x.real*y.real - x.imag*y.imag;
+              (dca[j*ld+i]).imag = x.real*y.imag + x.imag*y.real;
             }
           break;
         case C_SCPL:
@@ -2694,8 +2697,9 @@ static void sgai_scale_col_values(Integer type, Integer *lo,
           for(j=0;j<hi[1]-lo[1]+1;j++)
             for (i = 0; i < hi[0]-lo[0]+1; i++)
             {
-              (fca[j*ld+i]).real *= (((SingleComplex *) buf)[j]).real;
-              (fca[j*ld+i]).imag *= (((SingleComplex *) buf)[j]).imag;
+              SingleComplex x = fca[j*ld+i], y = ((SingleComplex *) buf)[j];
+              (fca[j*ld+i]).real = x.real*y.real - x.imag*y.imag;
+              (fca[j*ld+i]).imag = x.real*y.imag + x.imag*y.real;
             }
           break;
         default:
-- 
2.43.0


From d1c52093e0023fc6bd0a482f1d5eee46ac2eebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:03 +0000
Subject: [PATCH 022/126] fix: ga_bin_sorter reads bin ranges before other
 processes have written them and leaks their array

---
 global/src/sparse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/global/src/sparse.c b/global/src/sparse.c
index 94929d2..78618f8 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -840,7 +840,10 @@ Integer tlo[2], thi[2];
                  pnga_put(*g_range, tlo, thi, buf+off, &cnt);
           }
       }
+      pnga_release(g_off, &lobin, &hibin);
    }
+   /* ranges may be set by other processes */
+   pnga_sync();
    return TRUE;
 }
 
@@ -887,9 +890,12 @@ Integer g_range;
             gai_hsort(ptr, elems);
             ptr+=elems;
         }
+        free(bin_cnt);
         pnga_release_update(g_bin, &lo, &hi);             
     }
 
+    if(!pnga_destroy(g_range))
+        pnga_error("ga_bin_sorter: failed to destroy temp bin range array",0);
     pnga_sync();
 }
 
-- 
2.43.0


From fb7a3febf87e070d495a84711b86da10b11516fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:03 +0000
Subject: [PATCH 023/126] fix: ga_bin_index computes wrong offsets from stale
 data of an earlier call

---
 global/src/sparse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/sparse.c b/global/src/sparse.c
index 78618f8..d8318b8 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -735,7 +735,8 @@ int len, lenmes, tag=32100, i, me=armci_msg_me();
     if (right > -1) armci_msg_snd(tag, offset, len, right);
     if (left > -1) {
             /* we saved num elems for right subtree to adjust offset for left*/
-            for(i=0; i<n; i++) workR[i] = offset[i] -workR[i]; 
+            for(i=0; i<n; i++)
+                workR[i] = (right > -1) ? offset[i] -workR[i] : offset[i];
             armci_msg_snd(tag, workR, len, left);
     }
 /*    printf("%d:left=%d right=%d up=%d root=%d off=%d\n",me,left, right,up,root,offset[0]);
-- 
2.43.0


From c431d57c144e1e591defa308f69989e533938672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 024/126] fix: C field transfers pass leading dimensions one
 too large

---
 global/src/capi.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index 89cd048..dd284f4 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -5278,7 +5278,7 @@ void NGA_Get_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_get_field(a, _alo, _ahi, foff, fsize, buf, _ld);
 }
@@ -5291,7 +5291,7 @@ void NGA_Nbget_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_nbget_field(a, _alo, _ahi, foff, fsize, buf, _ld, (Integer*)nbhandle);
 }
@@ -5304,7 +5304,7 @@ void NGA_Nbput_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_nbput_field(a, _alo, _ahi, foff, fsize, buf, _ld, (Integer*)nbhandle);
 }
@@ -5317,7 +5317,7 @@ void NGA_Put_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_put_field(a, _alo, _ahi, foff, fsize, buf, _ld);
 }
-- 
2.43.0


From 96249a2a0fc7f6b0287b1a8d9b34e80ed023de58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 025/126] fix: periodic transfers address wrong elements or
 fail for patches several periods below or covering more than one period

---
 global/src/global.periodic.c | 141 ++++++-----------------------------
 1 file changed, 24 insertions(+), 117 deletions(-)

diff --git a/global/src/global.periodic.c b/global/src/global.periodic.c
index ea52469..aa5a24e 100644
--- a/global/src/global.periodic.c
+++ b/global/src/global.periodic.c
@@ -41,23 +41,9 @@
 #include "ga-papi.h"
 #include "ga-wapi.h"
 
-#define RANGE_NUM 3
 #define RANGE_BOUND 6
 #define IS_REGULAR_PATCH 100
 
-typedef struct {
-    Integer lo;
-    Integer hi;
-    int isvalid;
-} Range_bound;
-
-typedef struct {
-    Range_bound low;
-    Range_bound mid;
-    Range_bound hig;
-} Range;
-
-
 static int ngai_peri_get_range_(Integer ndim, Integer *dims, Integer *lo_orig, Integer *hi_orig,
                          Integer range[][RANGE_BOUND], Integer range_num[],
                          Integer offset[][RANGE_BOUND/2], Integer op_code)
@@ -72,116 +58,37 @@ static int ngai_peri_get_range_(Integer ndim, Integer *dims, Integer *lo_orig, I
   op_code                - not used
 */
 {
-    Integer lo[MAXDIM], hi[MAXDIM];
-    Integer i, rmndr, id;
-    Range range_raw[MAXDIM];
-    Integer is_regular_patch, no_shift;
- 
+    Integer i, cur, idx, len;
+    Integer is_regular_patch = 1;
+
     /* check the patch is valid or not */
     for (i=0; i<ndim; i++) {
-      lo[i] = lo_orig[i];
-      hi[i] = hi_orig[i];
-      if ((hi[i] - lo[i] + 1) < 1 || (hi[i]-lo[i]+1) > 2*dims[i]) return 0;
-    }
-    /* move request so that it at least partially overlaps the array
-     * (if necessary)
-     */
-    no_shift = 1;
-    for(i=0; i<ndim; i++) {
-      if (lo[i] > dims[i]) {
-        rmndr = lo[i]%dims[i];
-        id = (lo[i]-rmndr)/dims[i]; 
-        lo[i] = lo[i] - id*dims[i];
-        hi[i] = hi[i] - id*dims[i];
-        if (id != 0) {
-          no_shift = 0;
-        }
-      }
-      if (hi[i] < 1) {
-        rmndr = -hi[i]%dims[i];
-        id = (hi[i]+rmndr)/dims[i]+1; 
-        lo[i] = lo[i] + id*dims[i];
-        hi[i] = hi[i] + id*dims[i];
-        if (id != 0) {
-          no_shift = 0;
-        }
-      }
+      if ((hi_orig[i] - lo_orig[i] + 1) < 1 ||
+          (hi_orig[i] - lo_orig[i] + 1) > 2*dims[i]) return 0;
+      if (lo_orig[i] < 1 || hi_orig[i] > dims[i]) is_regular_patch = 0;
     }
-    /* break the lo and hi into the corresponding ranges
-     *
-     * lo (if < 1)         1                dims[i]      hi (if > dims[i])
-     * |-------------------|------------------|------------------|
+    if (is_regular_patch) return IS_REGULAR_PATCH;
+
+    /* Break the request on each axis into ranges of indices between 1 and
+     * dims[i]. A request for at most two periods has at most three ranges.
      * Example:
-     *    lo[0] = -3 hi[0] = 5 dims[0] = 10 then
-     *    range_raw[0].low.lo = -3  range_raw[0].low.hi = 0
-     *    range_raw[0].low.isvalid = 1
-     *    range_raw[0].mid.lo = 1   range_raw[0].mid.hi = 5
-     *    range_raw[0].mid.isvalid = 1
-     *    range_raw[0].hig.isvalid = 0
+     *    lo[0] = -3 hi[0] = 5 dims[0] = 10 is broken into
+     *    7..10 (offset 0) and 1..5 (offset 4)
      */
-    for(i=0; i<ndim; i++) {
-        /* initialize the dim range */
-        range_raw[i].low.lo = 0; range_raw[i].low.hi = 0;
-        range_raw[i].low.isvalid = 0;
-        range_raw[i].mid.lo = 1; range_raw[i].mid.hi = dims[i];
-        range_raw[i].mid.isvalid = 0;
-        range_raw[i].hig.lo = dims[i]+1; range_raw[i].hig.hi = 0;
-        range_raw[i].hig.isvalid = 0;
-        
-        if(lo[i] < 1) {
-            range_raw[i].low.lo = lo[i];
-            range_raw[i].low.isvalid = 1;
-        } else if (lo[i] >= 1) {
-            range_raw[i].mid.lo = lo[i];
-            range_raw[i].mid.isvalid = 1;
-        }
-
-        if (lo[i] < 1 && hi[i] > dims[i]) {
-            range_raw[i].mid.isvalid = 1;
-        }
-
-
-        if(hi[i] > dims[i]) {
-            range_raw[i].hig.hi = hi[i];
-            range_raw[i].hig.isvalid = 1;
-        } else if (hi[i] <= dims[i]) {
-            range_raw[i].mid.hi = hi[i];
-            range_raw[i].mid.isvalid = 1;
-        }
-
+    for (i=0; i<ndim; i++) {
+      range_num[i] = 0;
+      for (cur = lo_orig[i]; cur <= hi_orig[i]; cur += len) {
+        idx = (cur-1)%dims[i];
+        if (idx < 0) idx += dims[i];
+        len = dims[i] - idx;
+        if (len > hi_orig[i] - cur + 1) len = hi_orig[i] - cur + 1;
+        range[i][range_num[i]*2] = idx + 1;
+        range[i][range_num[i]*2+1] = idx + len;
+        offset[i][range_num[i]] = cur - lo_orig[i];
+        range_num[i]++;
+      }
     }
 
-    /* check if this is a regular patch, not periodic operation needed */
-    is_regular_patch = 1;
-    for(i=0; i<ndim; i++) 
-        if(range_raw[i].low.isvalid || range_raw[i].hig.isvalid)
-            is_regular_patch = 0;
-
-    if(is_regular_patch && no_shift) return IS_REGULAR_PATCH;
-    
-    /* adjust the range so that they are in the range of 1 to dims[i] */
-    for(i=0; i<ndim; i++) {
-        range_num[i] = 0;
-        if(range_raw[i].low.isvalid) {
-            range[i][range_num[i]*2] = range_raw[i].low.lo + dims[i];
-            range[i][range_num[i]*2+1] = range_raw[i].low.hi + dims[i];
-            offset[i][range_num[i]] = range_raw[i].low.lo - lo[i];
-            range_num[i]++;
-        }
-        if(range_raw[i].mid.isvalid) {
-            range[i][range_num[i]*2] = range_raw[i].mid.lo;
-            range[i][range_num[i]*2+1] = range_raw[i].mid.hi;
-            offset[i][range_num[i]] = range_raw[i].mid.lo - lo[i];
-            range_num[i]++;
-        }
-        if(range_raw[i].hig.isvalid) {
-            range[i][range_num[i]*2] = range_raw[i].hig.lo - dims[i];
-            range[i][range_num[i]*2+1] = range_raw[i].hig.hi - dims[i];
-            offset[i][range_num[i]] = range_raw[i].hig.lo - lo[i];
-            range_num[i]++;
-        }  
-    }
-    
     return 1;
 }
 
-- 
2.43.0


From 2fb03a7022e2d22c5768c0950541132be7b23161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 026/126] fix: strided transfers of three or more dimensions
 that span several processes use the wrong part of the local buffer

---
 global/src/onesided.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index cf8d132..5da3032 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -4185,8 +4185,9 @@ void gai_ComputePatchIndexWithSkip(Integer ndim, Integer *lo, Integer *plo,
   delta -= inc;
   delta /=  skip[0];
   *idx_buf = delta;
+  factor = 1;
   for (i=0; i<ndim-1; i++) {
-    factor = ld[i];
+    factor *= ld[i];
     delta = plo[i+1]-lo[i+1];
     inc = delta%skip[i+1];
     delta -= inc;
-- 
2.43.0


From 8568d18f4586bc6247ad1a8139e7a2215e9af888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 027/126] fix: strided transfers with skips move the wrong
 elements or abort when an MPI datatype describes them

---
 comex/src-mpi-pr/comex.c | 74 ++++++++--------------------------------
 comex/src-mpi3/comex.c   | 63 +++++++++-------------------------
 2 files changed, 30 insertions(+), 107 deletions(-)

diff --git a/comex/src-mpi-pr/comex.c b/comex/src-mpi-pr/comex.c
index 5497f9a..6b3dafa 100644
--- a/comex/src-mpi-pr/comex.c
+++ b/comex/src-mpi-pr/comex.c
@@ -7492,67 +7492,21 @@ STATIC void translate_mpi_error(int ierr, const char* location)
  */
 STATIC void strided_to_subarray_dtype(int *stride_array, int *count, int levels, MPI_Datatype base_type, MPI_Datatype *type)
 {
-    int ndims = levels+1;
-    int i = 0;
-    int ierr = 0;
-    int array_of_sizes[7];
-    int array_of_starts[7];
-    int array_of_subsizes[7];
-    int stride = 0;
-
-    ierr = MPI_Type_size(base_type,&stride);
-    translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_size");
-
-    /* the pointer to the local buffer points to the first data element
-     * in data exchange, not the origin of the local array, so all starts
-     * should be zero */
+    MPI_Datatype inner;
+    int i, ierr;
+
+    /* the pointer to the buffer points to the first data element in the
+     * exchange, and the strides need not be multiples of each other */
+    ierr = MPI_Type_contiguous(count[0], base_type, type);
+    translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_contiguous");
     for (i=0; i<levels; i++) {
-        array_of_sizes[i] = stride_array[i]/stride;
-        array_of_starts[i] = 0;
-        array_of_subsizes[i] = count[i];
-        if (array_of_sizes[i] < array_of_subsizes[i]) {
-            fprintf(stderr, "p[%d] ERROR [strided_to_subarray_dtype]\n"
-                    "stride: %d\n"
-                    "stride_array[%d]: %d\n"
-                    "array_of_sizes[%d]: %d\n"
-                    "array_of_subsizes[%d]: %d\n",
-                    g_state.rank,
-                    stride,
-                    i,stride_array[i],
-                    i,array_of_sizes[i],
-                    i,array_of_subsizes[i]);
-        }
-        stride = stride_array[i];
-    }
-    array_of_sizes[levels] = count[levels];
-    array_of_starts[levels] = 0;
-    array_of_subsizes[levels] = count[levels];
-#if DEBUG
-    for (i=0; i<ndims; i++) {
-        fprintf(stderr, "p[%d] ndims: %d sizes[%d]: %d subsizes[%d]: %d starts[%d]: %d\n",
-                g_state.rank,
-                ndims,
-                i,array_of_sizes[i],
-                i,array_of_subsizes[i],
-                i,array_of_starts[i]);
-    }
-#endif
-
-    ierr = MPI_Type_create_subarray(ndims, array_of_sizes,
-            array_of_subsizes, array_of_starts, MPI_ORDER_FORTRAN,
-            base_type, type);
-    if (MPI_SUCCESS != ierr) {
-        fprintf(stderr, "p[%d] Error forming MPI_Datatype for one-sided strided operation."
-                " Check that stride dimensions are compatible with local block"
-                " dimensions\n",g_state.rank);
-        for (i=0; i<levels; i++) {
-            fprintf(stderr, "p[%d] count[%d]: %d stride[%d]: %d\n",
-                    g_state.rank,
-                    i,count[i],
-                    i,stride_array[i]);
-        }
-        fprintf(stderr, "p[%d] count[%d]: %d\n",g_state.rank,i,count[i]);
-        translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_subarray");
+        inner = *type;
+        ierr = MPI_Type_create_hvector(count[i+1], 1,
+                (MPI_Aint)stride_array[i], inner, type);
+        translate_mpi_error(ierr,
+                "strided_to_subarray_dtype:MPI_Type_create_hvector");
+        ierr = MPI_Type_free(&inner);
+        translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_free");
     }
 }
 STATIC void check_devshm(int fd, size_t size){
diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 75b4a53..9544645 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -678,53 +678,22 @@ int comex_acc(
 void strided_to_subarray_dtype(int *stride_array, int *count, int levels,
     MPI_Datatype base_type, MPI_Datatype *type)
 {
-   int ndims, i, ierr;
-   int array_of_sizes[7];
-   int array_of_starts[7];
-   int array_of_subsizes[7];
-   int stride;
-   ierr = MPI_Type_size(base_type,&stride);
-   translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_size");
-   ndims = levels+1;
-   /* the pointer to the local buffer points to the first data element in
-      data exchange, not the origin of the local array, so all starts should
-      be zero */
-   for (i=0; i<levels; i++) {
-     array_of_sizes[i] = stride_array[i]/stride;
-     array_of_starts[i] = 0;
-     array_of_subsizes[i] = count[i];
-     if (array_of_sizes[i] < array_of_subsizes[i]) {
-       printf("p[%d] ERROR [strided_to_subarray_dtype]\n"
-              "array_of_sizes[%d]: %d\n"
-              "array_of_subsizes[%d]: %d\n",l_state.rank,
-              i,array_of_sizes[i],i,array_of_subsizes[i]);
-     }
-     stride = stride_array[i];
-   }
-   array_of_sizes[levels] = count[levels];
-   array_of_starts[levels] = 0;
-   array_of_subsizes[levels] = count[levels];
-#if 0
-     for (i=0; i<ndims; i++) {
-       printf("p[%d] ndims: %d sizes[%d]: %d subsizes[%d]: %d starts[%d]: %d\n",
-           l_state.rank,ndims,i,array_of_sizes[i],i,array_of_subsizes[i],
-           i,array_of_starts[i]);
-     }
-#endif
-   
-   ierr = MPI_Type_create_subarray(ndims, array_of_sizes,array_of_subsizes,
-       array_of_starts,MPI_ORDER_FORTRAN,base_type,type);
-   if (ierr != 0) {
-     printf("p[%d] Error forming MPI_Datatype for one-sided strided operation."
-       " Check that stride dimensions are compatible with local block"
-       " dimensions\n",l_state.rank);
-     for (i=0; i<levels; i++) {
-       printf("p[%d] count[%d]: %d stride[%d]: %d\n",l_state.rank,i,count[i],
-           i,stride_array[i]);
-     }
-     printf("p[%d] count[%d]: %d\n",l_state.rank,i,count[i]);
-     translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_subarray");
-   }
+    MPI_Datatype inner;
+    int i, ierr;
+
+    /* the pointer to the buffer points to the first data element in the
+     * exchange, and the strides need not be multiples of each other */
+    ierr = MPI_Type_contiguous(count[0], base_type, type);
+    translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_contiguous");
+    for (i=0; i<levels; i++) {
+        inner = *type;
+        ierr = MPI_Type_create_hvector(count[i+1], 1,
+                (MPI_Aint)stride_array[i], inner, type);
+        translate_mpi_error(ierr,
+                "strided_to_subarray_dtype:MPI_Type_create_hvector");
+        ierr = MPI_Type_free(&inner);
+        translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_free");
+    }
 }
 
 /**
-- 
2.43.0


From 5bd8ade4f177a4f7aa8705840f285393d8faee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 028/126] fix: transfers with seven stride levels overflow the
 index arrays of the ports

---
 comex/src-mpi-mt/comex.c | 22 +++++++++++-----------
 comex/src-mpi-pr/comex.c | 18 +++++++++---------
 comex/src-mpi-pt/comex.c | 22 +++++++++++-----------
 comex/src-mpi/comex.c    | 12 ++++++------
 comex/src-mpi3/comex.c   | 22 +++++++++++-----------
 5 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/comex/src-mpi-mt/comex.c b/comex/src-mpi-mt/comex.c
index 879c7b7..f6a22e6 100644
--- a/comex/src-mpi-mt/comex.c
+++ b/comex/src-mpi-mt/comex.c
@@ -1693,7 +1693,7 @@ STATIC void _put_packed_handler(header_t *header, int proc)
     int i, j;
     long dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int dst_bvalue[7], dst_bunit[7];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
 
 #if DEBUG
     printf("[%d] _put_packed_handler rem=%p loc=%p rem_rank=%d len=%d\n",
@@ -2079,7 +2079,7 @@ STATIC void _acc_packed_handler(header_t *header, int proc)
         int i, j;
         long dst_idx;  /* index offset of current block position to ptr */
         int n1dim;  /* number of 1 dim block */
-        int dst_bvalue[7], dst_bunit[7];
+        int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
         int packed_index = 0;
 
         COMEX_ASSERT(stride_levels >= 0);
@@ -3167,8 +3167,8 @@ STATIC void nb_puts(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
 
 #if DEBUG
     printf("[%d] nb_puts(src=%p, src_stride=%p, dst=%p, dst_stride=%p, count[0]=%d, stride_levels=%d, proc=%d, nb=%p)\n",
@@ -3247,7 +3247,7 @@ STATIC void nb_puts_packed(
     int i, j;
     long src_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
     int packed_index = 0;
     char *packed_buffer = NULL;
     stride_t *stride = NULL;
@@ -3323,8 +3323,8 @@ STATIC void nb_gets(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
 
 #if DEBUG
     printf("[%d] nb_gets(src=%p, src_stride=%p, dst=%p, dst_stride=%p, count[0]=%d, stride_levels=%d, proc=%d, nb=%p)\n",
@@ -3491,8 +3491,8 @@ STATIC void nb_accs(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
 
     COMEX_ASSERT(proc >= 0);
     COMEX_ASSERT(proc < g_state.size);
@@ -4067,7 +4067,7 @@ STATIC char* pack(
     int i, j;
     long src_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
     int packed_index = 0;
     char *packed_buffer = NULL;
     stride_t stride;
@@ -4132,7 +4132,7 @@ STATIC void unpack(char *packed_buffer,
     int i, j;
     long dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int dst_bvalue[7], dst_bunit[7];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
     int packed_index = 0;
     stride_t stride;
 
diff --git a/comex/src-mpi-pr/comex.c b/comex/src-mpi-pr/comex.c
index 6b3dafa..956aafd 100644
--- a/comex/src-mpi-pr/comex.c
+++ b/comex/src-mpi-pr/comex.c
@@ -1270,7 +1270,7 @@ STATIC char* pack(
     int i, j;
     long src_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
     int packed_index = 0;
     char *packed_buffer = NULL;
 
@@ -1334,7 +1334,7 @@ STATIC void unpack(char *packed_buffer,
     int i, j;
     long dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int dst_bvalue[7], dst_bunit[7];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
     int packed_index = 0;
 
     COMEX_ASSERT(stride_levels >= 0);
@@ -4219,7 +4219,7 @@ STATIC void _acc_packed_handler(header_t *header, char *payload, int proc)
         int i, j;
         long dst_idx;  /* index offset of current block position to ptr */
         int n1dim;  /* number of 1 dim block */
-        int dst_bvalue[7], dst_bunit[7];
+        int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
         int packed_index = 0;
 
         COMEX_ASSERT(stride_levels >= 0);
@@ -6346,8 +6346,8 @@ STATIC void nb_puts(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
 
 #if DEBUG
     fprintf(stderr, "[%d] nb_puts(src=%p, src_stride=%p, dst=%p, dst_stride=%p, count[0]=%d, stride_levels=%d, proc=%d, nb=%p)\n",
@@ -6621,8 +6621,8 @@ STATIC void nb_gets(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
 
     /* if not actually a strided get */
     if (0 == stride_levels) {
@@ -6897,8 +6897,8 @@ STATIC void nb_accs(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
 
     /* if not actually a strided acc */
     if (0 == stride_levels) {
diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 708feb5..5ed0880 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -927,7 +927,7 @@ STATIC char* pack(
     int i, j;
     long src_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
     int packed_index = 0;
     char *packed_buffer = NULL;
     stride_t stride;
@@ -992,7 +992,7 @@ STATIC void unpack(char *packed_buffer,
     int i, j;
     long dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int dst_bvalue[7], dst_bunit[7];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
     int packed_index = 0;
     stride_t stride;
 
@@ -2579,7 +2579,7 @@ STATIC void _put_packed_handler(header_t *header, int proc)
     int i, j;
     long dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int dst_bvalue[7], dst_bunit[7];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
 
 #if DEBUG
     printf("[%d] _put_packed_handler rem=%p loc=%p rem_rank=%d len=%d\n",
@@ -3009,7 +3009,7 @@ STATIC void _acc_packed_handler(header_t *header, int proc)
         int i, j;
         long dst_idx;  /* index offset of current block position to ptr */
         int n1dim;  /* number of 1 dim block */
-        int dst_bvalue[7], dst_bunit[7];
+        int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
         int packed_index = 0;
 
         COMEX_ASSERT(stride_levels >= 0);
@@ -4518,8 +4518,8 @@ STATIC void nb_puts(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
 
 #if DEBUG
     printf("[%d] nb_puts(src=%p, src_stride=%p, dst=%p, dst_stride=%p, count[0]=%d, stride_levels=%d, proc=%d, nb=%p)\n",
@@ -4599,7 +4599,7 @@ STATIC void nb_puts_packed(
     int i, j;
     long src_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
     int packed_index = 0;
     char *packed_buffer = NULL;
     stride_t *stride = NULL;
@@ -4677,8 +4677,8 @@ STATIC void nb_gets(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
 
     /* if not actually a strided get */
     if (0 == stride_levels) {
@@ -4843,8 +4843,8 @@ STATIC void nb_accs(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
 
     /* if not actually a strided acc */
     if (0 == stride_levels) {
diff --git a/comex/src-mpi/comex.c b/comex/src-mpi/comex.c
index ca89c70..4e69ff0 100644
--- a/comex/src-mpi/comex.c
+++ b/comex/src-mpi/comex.c
@@ -776,8 +776,8 @@ int comex_puts(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
 
     CHECK_GROUP(group,proc);
 #if DEBUG
@@ -851,8 +851,8 @@ int comex_gets(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
 
     CHECK_GROUP(group,proc);
 #if DEBUG
@@ -939,8 +939,8 @@ int comex_accs(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
 
     CHECK_GROUP(group,proc);
 #if DEBUG
diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 9544645..20d819d 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -718,8 +718,8 @@ int comex_puts(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
     int status;
 
     /* number of n-element of the first dimension */
@@ -861,8 +861,8 @@ int comex_gets(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
     int status;
 
     /* number of n-element of the first dimension */
@@ -1000,7 +1000,7 @@ void* malloc_strided_acc_buffer(void* ptr, int *strides, int *count,
   int i, j, stride, src_idx;
   void *new_ptr;
   char *cursor, *src_cursor;
-  int n1dim, src_bvalue[7], src_bunit[7];
+  int n1dim, src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
   *size = 1;
   /* evaluate size of new array */
   for (i=0; i<=levels; i++) {
@@ -1046,8 +1046,8 @@ void* malloc_strided_acc_buffer(void* ptr, int *strides, int *count,
 
   return new_ptr;
 #else
-  int index[7];
-  int lcnt[7];
+  int index[COMEX_MAX_STRIDE_LEVEL+1];
+  int lcnt[COMEX_MAX_STRIDE_LEVEL+1];
   int idx, i, j, stride, src_idx;
   void *new_ptr;
   char *cursor, *src_cursor;
@@ -1117,8 +1117,8 @@ int comex_accs(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL+1], src_bunit[COMEX_MAX_STRIDE_LEVEL+1];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL+1], dst_bunit[COMEX_MAX_STRIDE_LEVEL+1];
     void *get_buf;
 
     /* number of n-element of the first dimension */
@@ -1173,7 +1173,7 @@ int comex_accs(
     int lproc, i, ierr;
     void *packbuf;
     int bufsize;
-    int new_strides[7], new_count[7];
+    int new_strides[COMEX_MAX_STRIDE_LEVEL], new_count[COMEX_MAX_STRIDE_LEVEL+1];
     reg_entry_t *reg_win;
 #ifdef USE_MPI_REQUESTS
     MPI_Request request;
@@ -2604,7 +2604,7 @@ int comex_nbaccs(
     int lproc, i, ierr;
     void *packbuf;
     int bufsize;
-    int new_strides[7], new_count[7];
+    int new_strides[COMEX_MAX_STRIDE_LEVEL], new_count[COMEX_MAX_STRIDE_LEVEL+1];
     reg_entry_t *reg_win;
     MPI_Request request;
     MPI_Status status;
-- 
2.43.0


From a650a74826ca725b99f296e4ee7784bd0ef673c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 029/126] fix: MPI-3 non-blocking strided accumulate of complex
 data uses the overwritten real part

---
 comex/src-mpi3/comex.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 20d819d..11d3f0b 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -2680,9 +2680,11 @@ int comex_nbaccs(
       float ciscale = *((float*)scale+1);
       int nvar = bufsize/(2*sizeof(float));
       buf = (float*)packbuf;
+      float tmp;
       for (i=0; i<nvar; i++) {
+        tmp = buf[2*i];
         buf[2*i] = crscale*buf[2*i]-ciscale*buf[2*i+1];
-        buf[2*i+1] = ciscale*buf[2*i]+crscale*buf[2*i+1];
+        buf[2*i+1] = ciscale*tmp+crscale*buf[2*i+1];
       }
       new_count[0] = new_count[0]/sizeof(float);
       strided_to_subarray_dtype(new_strides, new_count, stride_levels,
@@ -2695,9 +2697,11 @@ int comex_nbaccs(
       double ciscale = *((double*)scale+1);
       int nvar = bufsize/(2*sizeof(double));
       buf = (double*)packbuf;
+      double tmp;
       for (i=0; i<nvar; i++) {
+        tmp = buf[2*i];
         buf[2*i] = crscale*buf[2*i]-ciscale*buf[2*i+1];
-        buf[2*i+1] = ciscale*buf[2*i]+crscale*buf[2*i+1];
+        buf[2*i+1] = ciscale*tmp+crscale*buf[2*i+1];
       }
       new_count[0] = new_count[0]/sizeof(double);
       strided_to_subarray_dtype(new_strides, new_count, stride_levels,
-- 
2.43.0


From 2763c3d8a3aac8cc2981fc9fc93d05bd2bd873c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 030/126] fix: every GA mutex is mapped to the same lock, so
 holding one and taking another deadlocks

---
 global/src/base.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index d40904b..ffc11cf 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -5112,10 +5112,10 @@ void pnga_lock(Integer mutex)
 int m,p;
 
    if(GAnproc == 1) return;
-   if(num_mutexes< mutex)pnga_error("invalid mutex",mutex);
+   if(mutex < 0 || mutex >= num_mutexes)pnga_error("invalid mutex",mutex);
 
-   p = num_mutexes/chunk_mutex -1;
-   m = num_mutexes%chunk_mutex;
+   p = (int)(mutex/chunk_mutex);
+   m = (int)(mutex%chunk_mutex);
 
    ARMCI_Lock(m,p);
 }
@@ -5132,10 +5132,10 @@ void pnga_unlock(Integer mutex)
 int m,p;
 
    if(GAnproc == 1) return;
-   if(num_mutexes< mutex)pnga_error("invalid mutex",mutex);
+   if(mutex < 0 || mutex >= num_mutexes)pnga_error("invalid mutex",mutex);
    
-   p = num_mutexes/chunk_mutex -1;
-   m = num_mutexes%chunk_mutex;
+   p = (int)(mutex/chunk_mutex);
+   m = (int)(mutex%chunk_mutex);
 
    ARMCI_Unlock(m,p);
 }              
-- 
2.43.0


From 654ecbae95205d1c7be56dea8b9d562ce8308348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 031/126] fix: MPI-MT and MPI-PT abort when a program has more
 non-blocking requests than handles

---
 comex/src-mpi-mt/comex.c | 12 +++---------
 comex/src-mpi-pt/comex.c | 12 +++---------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/comex/src-mpi-mt/comex.c b/comex/src-mpi-mt/comex.c
index f6a22e6..6587f73 100644
--- a/comex/src-mpi-mt/comex.c
+++ b/comex/src-mpi-mt/comex.c
@@ -2819,20 +2819,14 @@ STATIC nb_t* nb_wait_for_handle()
 
     /* find first handle that isn't associated with a user-level handle */
     /* make sure the handle we find has processed all events */
-    /* the user can accidentally exhaust the available handles */
+    /* if every handle belongs to a user-level request all of them have been
+     * completed by the loop, and the last one can be reused */
     do {
         ++in_use_count;
-        if (in_use_count > nb_max_outstanding) {
-            fprintf(stderr,
-                    "{%d} nb_wait_for_handle Error: all user-level "
-                    "nonblocking handles have been exhausted\n",
-                    g_state.rank);
-            MPI_Abort(g_state.comm, -1);
-        }
         nb = &nb_state[nb_index++];
         nb_index %= nb_max_outstanding; /* wrap around if needed */
         nb_wait_for_all(nb);
-    } while (nb->in_use);
+    } while (nb->in_use && in_use_count < nb_max_outstanding);
 
     return nb;
 }
diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 5ed0880..d0921e7 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -4128,20 +4128,14 @@ STATIC nb_t* nb_wait_for_handle()
 
     /* find first handle that isn't associated with a user-level handle */
     /* make sure the handle we find has processed all events */
-    /* the user can accidentally exhaust the available handles */
+    /* if every handle belongs to a user-level request all of them have been
+     * completed by the loop, and the last one can be reused */
     do {
         ++in_use_count;
-        if (in_use_count > nb_max_outstanding) {
-            fprintf(stderr,
-                    "{%d} nb_wait_for_handle Error: all user-level "
-                    "nonblocking handles have been exhausted\n",
-                    g_state.rank);
-            MPI_Abort(g_state.comm, -1);
-        }
         nb = &nb_state[nb_index++];
         nb_index %= nb_max_outstanding; /* wrap around if needed */
         nb_wait_for_all(nb);
-    } while (nb->in_use);
+    } while (nb->in_use && in_use_count < nb_max_outstanding);
 
     return nb;
 }
-- 
2.43.0


From 8ae9a43721ecd18c521baafcc7ebd1cbffa2aeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 032/126] fix: testing a non-blocking request never makes
 progress on the MPI-MT and MPI-PT ports

---
 comex/src-mpi-mt/comex.c | 26 ++++++++++++++++++++++++++
 comex/src-mpi-pt/comex.c | 26 ++++++++++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/comex/src-mpi-mt/comex.c b/comex/src-mpi-mt/comex.c
index 6587f73..2dd8caa 100644
--- a/comex/src-mpi-mt/comex.c
+++ b/comex/src-mpi-mt/comex.c
@@ -193,6 +193,7 @@ STATIC void nb_wait_for_send1(nb_t *nb);
 STATIC void nb_wait_for_recv(nb_t *nb);
 STATIC void nb_wait_for_recv1(nb_t *nb);
 STATIC void nb_wait_for_all(nb_t *nb);
+STATIC void nb_test_for_all(nb_t *nb);
 STATIC void nb_wait_all();
 STATIC void nb_put(void *src, void *dst, int bytes, int proc, nb_t *nb);
 STATIC void nb_get(void *src, void *dst, int bytes, int proc, nb_t *nb);
@@ -954,6 +955,8 @@ int comex_test(comex_request_t* hdl, int *status)
                 g_state.rank);
     }
 
+    nb_test_for_all(nb);
+
     if (NULL == nb->send_head && NULL == nb->recv_head) {
         COMEX_ASSERT(0 == nb->send_size);
         COMEX_ASSERT(0 == nb->recv_size);
@@ -2957,6 +2960,29 @@ STATIC void nb_wait_for_recv1(nb_t *nb)
 }
 
 
+/* process the messages of a request that have already completed */
+STATIC void nb_test_for_all(nb_t *nb)
+{
+    int flag = 1;
+    int retval = 0;
+    MPI_Status status;
+
+    COMEX_ASSERT(NULL != nb);
+
+    while (flag && NULL != nb->send_head) {
+        retval = MPI_Test(&(nb->send_head->request), &flag, &status);
+        CHECK_MPI_RETVAL(retval);
+        if (flag) nb_wait_for_send1(nb);
+    }
+    flag = 1;
+    while (flag && NULL != nb->recv_head) {
+        retval = MPI_Test(&(nb->recv_head->request), &flag, &status);
+        CHECK_MPI_RETVAL(retval);
+        if (flag) nb_wait_for_recv1(nb);
+    }
+}
+
+
 STATIC void nb_wait_for_all(nb_t *nb)
 {
 #if DEBUG
diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index d0921e7..521ba37 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -221,6 +221,7 @@ STATIC void nb_wait_for_send1(nb_t *nb);
 STATIC void nb_wait_for_recv(nb_t *nb);
 STATIC void nb_wait_for_recv1(nb_t *nb);
 STATIC void nb_wait_for_all(nb_t *nb);
+STATIC void nb_test_for_all(nb_t *nb);
 STATIC void nb_wait_all();
 STATIC void nb_put(void *src, void *dst, int bytes, int proc, nb_t *nb);
 STATIC void nb_get(void *src, void *dst, int bytes, int proc, nb_t *nb);
@@ -1360,6 +1361,8 @@ int comex_test(comex_request_t* hdl, int *status)
                 g_state.rank);
     }
 
+    nb_test_for_all(nb);
+
     if (NULL == nb->send_head && NULL == nb->recv_head) {
         COMEX_ASSERT(0 == nb->send_size);
         COMEX_ASSERT(0 == nb->recv_size);
@@ -4272,6 +4275,29 @@ STATIC void nb_wait_for_recv1(nb_t *nb)
 }
 
 
+/* process the messages of a request that have already completed */
+STATIC void nb_test_for_all(nb_t *nb)
+{
+    int flag = 1;
+    int retval = 0;
+    MPI_Status status;
+
+    COMEX_ASSERT(NULL != nb);
+
+    while (flag && NULL != nb->send_head) {
+        retval = MPI_Test(&(nb->send_head->request), &flag, &status);
+        CHECK_MPI_RETVAL(retval);
+        if (flag) nb_wait_for_send1(nb);
+    }
+    flag = 1;
+    while (flag && NULL != nb->recv_head) {
+        retval = MPI_Test(&(nb->recv_head->request), &flag, &status);
+        CHECK_MPI_RETVAL(retval);
+        if (flag) nb_wait_for_recv1(nb);
+    }
+}
+
+
 STATIC void nb_wait_for_all(nb_t *nb)
 {
 #if DEBUG
-- 
2.43.0


From 4e7e96387b52fdbfbc014c4a28d26973c75a5b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 033/126] fix: ghost operations on an array of a process group
 use the caller's rank in the default group

---
 global/src/ghosts.c | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 4a6f2a5..2b5807d 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -100,7 +100,7 @@ char *lptr;
 Integer  handle = GA_OFFSET + g_a;
 Integer  i, lo[MAXDIM], hi[MAXDIM];
 Integer ndim = GA[handle].ndim;
-Integer me = pnga_nodeid();
+Integer me = pnga_pgroup_nodeid(GA[GA_OFFSET + g_a].p_handle);
 
 
    pnga_distribution(g_a, me, lo, hi);
@@ -130,7 +130,7 @@ Integer i=0;
 Integer tmp_sub[MAXDIM];
 unsigned long    elemsize=0;
 unsigned long    lref=0, lptr=0;
-Integer me = pnga_nodeid();
+Integer me = pnga_pgroup_nodeid(GA[GA_OFFSET + g_a].p_handle);
    /* Indices conform to Fortran convention. Shift them down 1 so that
       gam_LocationWithGhosts works. */
    for (i=0; i<GA[handle].ndim; i++) tmp_sub[i] = subscript[i] - 1;
@@ -201,7 +201,7 @@ void pnga_access_ghost_element_ptr(Integer g_a, void *ptr,
   Integer  handle = GA_OFFSET + g_a; 
   Integer i; 
   Integer tmp_sub[MAXDIM]; 
-  Integer me = pnga_nodeid(); 
+  Integer me = pnga_pgroup_nodeid(GA[GA_OFFSET + g_a].p_handle);
   /* Indices conform to Fortran convention. Shift them down 1 so that 
      gam_LocationWithGhosts works. */ 
   for (i=0; i<GA[handle].ndim; i++) tmp_sub[i] = subscript[i] - 1; 
@@ -341,7 +341,7 @@ void pnga_get_ghost_block(Integer g_a,
 
   me = GAme;
   grp_id = (Integer)GA[handle].p_handle;
-  if (grp_id>0) me = PGRP_LIST[grp_id].map_proc_list[me];
+  if (grp_id>=0) me = PGRP_LIST[grp_id].map_proc_list[me];
   ndim = GA[handle].ndim;
 
   /* Figure out whether or not lo and hi can be accessed completely
@@ -378,7 +378,7 @@ void pnga_get_ghost_block(Integer g_a,
        processor indexed by proc (stride_rem) and for local buffer
        buf (stride_loc) */
     gam_setstride(ndim, size, ld, ldrem, stride_rem, stride_loc);
-    ARMCI_GetS(ptr,stride_rem,buf,stride_loc,count,ndim-1,me);
+    ARMCI_GetS(ptr,stride_rem,buf,stride_loc,count,ndim-1,GAme);
   } else {
     pnga_periodic(g_a,lo,hi,buf,ld,NULL,PERIODIC_GET);
   }
@@ -406,7 +406,7 @@ void pnga_update1_ghosts(Integer g_a)
   int stride_loc[MAXDIM], stride_rem[MAXDIM], count[MAXDIM];
   char *ptr_loc, *ptr_rem;
   logical hasData = TRUE;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(GA[GA_OFFSET + g_a].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -822,7 +822,7 @@ logical pnga_update2_ghosts(Integer g_a)
   logical mask0;
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(GA[GA_OFFSET + g_a].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -1062,7 +1062,7 @@ logical pnga_update3_ghosts(Integer g_a)
   Integer ld_loc[MAXDIM], ld_rem[MAXDIM];
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(GA[GA_OFFSET + g_a].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -1312,7 +1312,7 @@ logical pnga_set_update4_info(Integer g_a)
   /*int corner_flag;*/
   char **ptr_snd, **ptr_rcv, *cache;
   char *current;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(GA[GA_OFFSET + g_a].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -1694,7 +1694,7 @@ logical pnga_update4_ghosts(Integer g_a)
   char **ptr_snd, **ptr_rcv, *cache, *current;
   char send_name[32], rcv_name[32];
   void *snd_ptr, *rcv_ptr, *snd_ptr_orig, *rcv_ptr_orig;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(GA[GA_OFFSET + g_a].p_handle);
   /*Integer p_handle;*/
 
   /* This routine makes use of the shift algorithm to update data in the
@@ -1954,7 +1954,7 @@ logical pnga_update44_ghosts(Integer g_a)
   char *ptr_snd, *ptr_rcv;
   char send_name[32], rcv_name[32];
   void *snd_ptr, *rcv_ptr, *snd_ptr_orig, *rcv_ptr_orig;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(GA[GA_OFFSET + g_a].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -2487,7 +2487,7 @@ logical pnga_update55_ghosts(Integer g_a)
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   int msgcnt;
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(GA[GA_OFFSET + g_a].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -2578,7 +2578,7 @@ logical pnga_update55_ghosts(Integer g_a)
   if(!_ga_proclist) pnga_error("pnga_update55_ghosts:malloc failed (_ga_proclist)",0);
 
   /* Get pointer to local memory */
-  ptr_loc = GA[handle].ptr[GAme];
+  ptr_loc = GA[handle].ptr[me];
   /* obtain range of data that is held by local processor */
   pnga_distribution(g_a,me,lo_loc,hi_loc);
 
@@ -2698,7 +2698,7 @@ logical pnga_update55_ghosts(Integer g_a)
 
       /* Get pointer to local data buffer and remote data
          buffer as well as lists of leading dimenstions */
-      gam_LocationWithGhosts(GAme, handle, plo_loc, &ptr_loc, ld_loc);
+      gam_LocationWithGhosts(me, handle, plo_loc, &ptr_loc, ld_loc);
       gam_LocationWithGhosts(proc_rem, handle, plo_rem, &ptr_rem, ld_rem);
 
       /* Evaluate strides on local and remote processors */
@@ -2767,7 +2767,7 @@ void pnga_update_ghosts_nb(Integer g_a, Integer *nbhandle)
   logical mask0;
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(GA[GA_OFFSET + g_a].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -2935,7 +2935,7 @@ logical pnga_update_ghost_dir(Integer g_a,    /* GA handle */
   logical flag;
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(GA[GA_OFFSET + g_a].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -2987,7 +2987,7 @@ logical pnga_update_ghost_dir(Integer g_a,    /* GA handle */
   if(!_ga_proclist) pnga_error("pnga_update_ghost_dir:malloc failed (_ga_proclist)",0);
 
   /* Get pointer to local memory */
-  ptr_loc = GA[handle].ptr[GAme];
+  ptr_loc = GA[handle].ptr[me];
   /* obtain range of data that is held by local processor */
   pnga_distribution(g_a,me,lo_loc,hi_loc);
 
@@ -3304,7 +3304,7 @@ logical pnga_set_update5_info(Integer g_a)
 #ifdef UPDATE_SAMENODE_GHOSTS_FIRST
   int scope;
 #endif
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(GA[GA_OFFSET + g_a].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -3501,7 +3501,7 @@ logical pnga_set_update5_info(Integer g_a)
         }
 
 
-        gam_LocationWithGhosts(GAme, handle, plo_loc, ptr_loc, ld_loc);
+        gam_LocationWithGhosts(me, handle, plo_loc, ptr_loc, ld_loc);
         gam_LocationWithGhosts(*proc_rem, handle, plo_rem, ptr_rem, ld_rem);
 
         gam_setstride(ndim, size, ld_loc, ld_rem, stride_rem,
@@ -3587,7 +3587,7 @@ logical pnga_update6_ghosts(Integer g_a)
   char /* *ptr_loc,*/ *ptr_rem;
   char send_name[32], rcv_name[32];
   void *snd_ptr, *rcv_ptr, *snd_ptr_orig, *rcv_ptr_orig;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(GA[GA_OFFSET + g_a].p_handle);
   Integer p_handle, wproc;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -4134,7 +4134,7 @@ logical pnga_update7_ghosts(Integer g_a)
   logical mask0;
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(GA[GA_OFFSET + g_a].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -4303,7 +4303,7 @@ void pnga_nbget_ghost_dir(Integer g_a,
   Integer subscript[MAXDIM], ld[MAXDIM];
   Integer i, ndim, dim, width;
   char *ptr_loc;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(GA[GA_OFFSET + g_a].p_handle);
   /*Integer p_handle;*/
   ndim = GA[handle].ndim;
   /*p_handle = GA[handle].p_handle;*/
-- 
2.43.0


From 382c57cd392e701f2603bc30002e591bed231c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 034/126] fix: NGA_Access_ghost_element does not return the
 leading dimensions

---
 global/src/capi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index dd284f4..b63ece9 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -2507,8 +2507,8 @@ void NGA_Access_ghost_element(int g_a, void *ptr, int subscript[], int ld[])
      Integer _ld[MAXDIM];
 
      COPYINDEX_C2F(subscript, _subscript, ndim);
-     COPYINDEX_C2F(ld, _ld, ndim-1);
      wnga_access_ghost_element_ptr(a, ptr, _subscript, _ld);
+     COPYF2C(_ld,ld, ndim-1);
 }
 
 void NGA_Access_ghost_element64(int g_a, void *ptr, int64_t subscript[], int64_t ld[])
@@ -2519,8 +2519,8 @@ void NGA_Access_ghost_element64(int g_a, void *ptr, int64_t subscript[], int64_t
      Integer _ld[MAXDIM];
 
      COPYINDEX_C2F(subscript, _subscript, ndim);
-     COPYINDEX_C2F(ld, _ld, ndim-1);
      wnga_access_ghost_element_ptr(a, ptr, _subscript, _ld);
+     COPYF2C_64(_ld,ld, ndim-1);
 }
 
 void NGA_Release(int g_a, int lo[], int hi[])
-- 
2.43.0


From 8fef8b7e5245955c74c88b36f678fe0c95c6bf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 035/126] fix: put-based ghost updates send the wrong slab in
 the positive direction unless the width is two

---
 global/src/ghosts.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 2b5807d..6c59e50 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -1241,7 +1241,7 @@ logical pnga_update3_ghosts(Integer g_a)
           if (i == idx) {
             plo_rem[i] = 0;
             phi_rem[i] = width[i] - 1;
-            plo_loc[i] = hi_loc[i] - lo_loc[i] + width[i] - 1;
+            plo_loc[i] = hi_loc[i] - lo_loc[i] + 1;
             /*phi_loc[i] = hi_loc[i] - lo_loc[i] + 2*width[i] - 1;*/
           } else {
             plo_rem[i] = width[i];
@@ -2680,7 +2680,7 @@ logical pnga_update55_ghosts(Integer g_a)
           if (i == idx) {
             plo_rem[i] = 0;
             phi_rem[i] = width[i] - 1;
-            plo_loc[i] = hi_loc[i] - lo_loc[i] + width[i] - 1;
+            plo_loc[i] = hi_loc[i] - lo_loc[i] + 1;
             /*phi_loc[i] = hi_loc[i] - lo_loc[i] + 2*width[i] - 1;*/
           } else {
             plo_rem[i] = width[i];
@@ -3484,7 +3484,7 @@ logical pnga_set_update5_info(Integer g_a)
             if (i == idx) {
               plo_rem[i] = 0;
               phi_rem[i] = width[i] - 1;
-              plo_loc[i] = hi_loc[i] - lo_loc[i] + width[i] - 1;
+              plo_loc[i] = hi_loc[i] - lo_loc[i] + 1;
               /*phi_loc[i] = hi_loc[i] - lo_loc[i] + 2*width[i] - 1;*/
             } else {
               plo_rem[i] = width[i];
-- 
2.43.0


From 626bf92855512f089ba58eb2c53c20f20e58bbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 036/126] fix: directional ghost updates from C take the
 dimensions in Fortran order and reject every mask

---
 global/src/capi.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index b63ece9..41689ac 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -1560,11 +1560,10 @@ void NGA_Merge_distr_patch64(int g_a, int64_t *alo, int64_t *ahi,
 int NGA_Update_ghost_dir(int g_a, int dimension, int dir, int flag)
 {
     Integer a=(Integer)g_a;
-    Integer idim = (Integer)dimension;
+    Integer idim = wnga_ndim(a) - (Integer)dimension;
     Integer idir = (Integer)dir;
     logical iflag = (logical)flag;
     logical st;
-    idim++;
     st = wnga_update_ghost_dir(a,idim,idir,iflag);
     return (int)st;
 }
@@ -1574,7 +1573,7 @@ void NGA_NbGet_ghost_dir(int g_a, int mask[], ga_nbhdl_t* nbhandle)
     Integer a=(Integer)g_a;
     Integer ndim = wnga_ndim(a);
     Integer _ga_lo[MAXDIM];
-    COPYINDEX_C2F(mask,_ga_lo, ndim);
+    COPYC2F(mask,_ga_lo, ndim);
     wnga_nbget_ghost_dir(a, _ga_lo,(Integer *)nbhandle);
 }
 
@@ -1583,7 +1582,7 @@ void NGA_NbGet_ghost_dir64(int g_a, int64_t mask[], ga_nbhdl_t* nbhandle)
     Integer a=(Integer)g_a;
     Integer ndim = wnga_ndim(a);
     Integer _ga_lo[MAXDIM];
-    COPYINDEX_C2F(mask,_ga_lo, ndim);
+    COPYC2F(mask,_ga_lo, ndim);
     wnga_nbget_ghost_dir(a, _ga_lo,(Integer *)nbhandle);
 }
 
-- 
2.43.0


From 1dee10f4f52412df0588d856ab56b0dcb181adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 037/126] fix: directional ghost updates abort when a dimension
 has no ghost cells

---
 global/src/ghosts.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 6c59e50..634bc9a 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -3019,6 +3019,10 @@ logical pnga_update_ghost_dir(Integer g_a,    /* GA handle */
         inx++;
       }
     }
+    /* skip blocks that contain no ghost cells */
+    for (idx = 0; idx < ndim; idx++)
+      if (mask[idx] != 0 && width[idx] == 0) break;
+    if (idx < ndim) continue;
     /* Now that mask has been determined, find processor that contains
      * data needed by the corresponding block of ghost cells */
     for (idx = 0; idx < ndim; idx++) {
@@ -4313,6 +4317,14 @@ void pnga_nbget_ghost_dir(Integer g_a,
       pnga_error("nga_nbget_ghost_dir: invalid mask entry", mask[i]);
   }
 
+  /* if there are no ghost cells in this direction, there is nothing to get */
+  for (i=0; i<ndim; i++) {
+    if (mask[i] != 0 && GA[handle].width[i] == 0) {
+      ga_init_nbhandle(nbhandle);
+      return;
+    }
+  }
+
   /* get range of data on local processor */
   pnga_distribution(g_a,me,lo_loc,hi_loc);
 
-- 
2.43.0


From c4d2dbf4e9d98f764af4afb843ac855d973f1d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 038/126] fix: updating the ghost cells of a duplicated array
 uses addresses from before its allocation

---
 global/src/base.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index ffc11cf..72ce9c5 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3795,9 +3795,8 @@ logical pnga_duplicate(Integer g_a, Integer *g_b, char* array_name)
     GA[ga_handle].mapc[maplen] = -1;
   }
 
-  /*** if ghost cells are used, initialize ghost cache data ***/
+  /*** ghost cache data is initialized once memory has been allocated ***/
   GA[ga_handle].cache = NULL;
-  pnga_set_ghost_info(*g_b);
 
   /*** initialize and copy info for restricted arrays, if relevant ***/
   GA[ga_handle].rstrctd_list = NULL;
@@ -3839,6 +3838,8 @@ logical pnga_duplicate(Integer g_a, Integer *g_b, char* array_name)
           (int)GA[ga_handle].type, &GA[ga_handle].id,
           (int)grp_id);
     }
+    /*** if ghost cells are used, initialize ghost cache data ***/
+    if (status) pnga_set_ghost_info(*g_b);
 }
   else{
     GA[ga_handle].ptr[grp_me]=NULL;
-- 
2.43.0


From 145b7acab4c3f304bf62a193d3e62f5673512278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 039/126] fix: duplicating a process group builds its
 communicator from the wrong processes

---
 global/src/base.c | 40 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 72ce9c5..ed3a5c4 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1216,13 +1216,12 @@ Integer pnga_pgroup_create(Integer *list, Integer count)
 
 Integer pnga_pgroup_duplicate(Integer grp)
 {
-    Integer pgrp_handle, i, j, nprocs, itmp;
+    Integer pgrp_handle, i;
     int tmp_count;
-    int *tmp_list, *tmp2_list;
+    int *tmp_list;
 #ifdef MSG_COMMS_MPI
     ARMCI_Group *tmpgrp;
 #endif
-    Integer save_grp;
     if (grp != -1 && !PGRP_LIST[grp].actv) {
        pnga_error(" Group is not active ", grp);
     }
@@ -1261,32 +1260,17 @@ Integer pnga_pgroup_duplicate(Integer grp)
           = i;
       }
     }
-    tmp_count = PGRP_LIST[grp].map_nproc;
-
+    /* members of the new group, as world process IDs */
+    tmp_count = (grp != -1) ? PGRP_LIST[grp].map_nproc : (int)GAnproc;
     tmp_list = (int*)malloc(GAnproc*sizeof(int));
-    tmp2_list = PGRP_LIST[grp].inv_map_proc_list;
-    save_grp = GA_Default_Proc_Group;
-    GA_Default_Proc_Group = PGRP_LIST[grp].parent;
-    if (grp != -1 && GA_Default_Proc_Group != -1) {
-       int parent = GA_Default_Proc_Group;
-       for (i=0; i<tmp_count; i++) {
-          tmp_list[i] = (int)PGRP_LIST[parent].map_proc_list[tmp2_list[i]];
-       }
-    } else if (grp != -1 && GA_Default_Proc_Group == -1) {
-       for (i=0; i<tmp_count; i++) {
-          tmp_list[i] = (int)PGRP_LIST[grp].map_proc_list[tmp2_list[i]];
-       }
-    } else {
-       for (i=0; i<GAnproc; i++) {
-          tmp_list[i] = i;
-       }
+    for (i=0; i<tmp_count; i++) {
+       tmp_list[i] = PGRP_LIST[pgrp_handle].inv_map_proc_list[i];
     }
-    
+
     PGRP_LIST[pgrp_handle].map_nproc = tmp_count;
     PGRP_LIST[pgrp_handle].actv = 1;
-    PGRP_LIST[pgrp_handle].parent = PGRP_LIST[grp].parent;
+    PGRP_LIST[pgrp_handle].parent = (grp != -1) ? PGRP_LIST[grp].parent : -1;
     PGRP_LIST[pgrp_handle].mirrored = 0;
-    PGRP_LIST[pgrp_handle].map_nproc = PGRP_LIST[grp].map_nproc;
 #ifdef MSG_COMMS_MPI
     tmpgrp = &PGRP_LIST[pgrp_handle].group;
 #if ENABLE_CHECKPOINT
@@ -1294,10 +1278,14 @@ Integer pnga_pgroup_duplicate(Integer grp)
        tmpgrp = ARMCI_Get_ft_group();
     else
 #endif
-       ARMCI_Group_create(tmp_count, tmp_list, &PGRP_LIST[pgrp_handle].group);
+       {
+          ARMCI_Group world_grp;
+          ARMCI_Group_get_world(&world_grp);
+          ARMCI_Group_create_child(tmp_count, tmp_list,
+              &PGRP_LIST[pgrp_handle].group, &world_grp);
+       }
 #endif
 
-    GA_Default_Proc_Group = save_grp;
     /* Clean up temporary arrays */
     free(tmp_list);
 
-- 
2.43.0


From 54c48cdc4995cadb36d5bed01c17be9015d01103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 040/126] fix: destroying a process group frees its
 communicator before checking that it may be destroyed

---
 global/src/base.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index ed3a5c4..9b4d70e 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1324,9 +1324,10 @@ logical pnga_pgroup_destroy(Integer grp_id)
 
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous sync masking*/
 
-#ifdef MSG_COMMS_MPI
-       ARMCI_Group_free(&PGRP_LIST[grp_id].group);
-#endif
+  if (PGRP_LIST[grp_id].actv == 0) {
+    return FALSE;
+  }
+
   /* check to make sure there are no GAs that depend on this process group */
   i=0;
   ok = 1;
@@ -1338,9 +1339,9 @@ logical pnga_pgroup_destroy(Integer grp_id)
   }while(i<_max_global_array && ok);
   if (!ok) pnga_error("Attempt to destroy process group with attached GAs",grp_id);
   
-  if (PGRP_LIST[grp_id].actv == 0) {
-    ret = FALSE;
-  }
+#ifdef MSG_COMMS_MPI
+  ARMCI_Group_free(&PGRP_LIST[grp_id].group);
+#endif
   PGRP_LIST[grp_id].actv = 0;
 
   /* Deallocate memory for lists */
-- 
2.43.0


From fc89d6509949660a35703dbeaa268bd7c3d92ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 041/126] fix: C++ PGroup::setDefault does not set the default
 group

---
 ga++/src/PGroup.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ga++/src/PGroup.cc b/ga++/src/PGroup.cc
index 8cf3ad4..4d4c10d 100644
--- a/ga++/src/PGroup.cc
+++ b/ga++/src/PGroup.cc
@@ -37,8 +37,8 @@ GA::PGroup::getDefault()
     if(pgDefault == NULL) 
     {
        pgDefault = new PGroup();
-       pgDefault->mPHandle = GA_Pgroup_get_default();
     }
+    pgDefault->mPHandle = GA_Pgroup_get_default();
     return pgDefault;
 }
 
@@ -85,7 +85,7 @@ GA::PGroup::self()
 void
 GA::PGroup::setDefault(GA::PGroup* p_handle) 
 {
-    pgDefault->mPHandle = p_handle->mPHandle;
+    GA_Pgroup_set_default(p_handle->mPHandle);
 }
 
 void
-- 
2.43.0


From 08b3905621102627b7fa6149eb658f326ecb99c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 042/126] fix: listing node ids in C overflows its buffer

---
 global/src/capi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index 41689ac..3f19c4b 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -1496,7 +1496,7 @@ void GA_List_nodeid(int *nlist, int nprocs)
   Integer i, procs;
   Integer *list;
   procs = (Integer)(nprocs);
-  list = malloc(procs*sizeof(int));
+  list = malloc(procs*sizeof(Integer));
   wnga_list_nodeid(list, procs);
   for (i=0; i<procs; i++) {
     nlist[i] = (int)list[i];
@@ -1509,7 +1509,7 @@ void NGA_List_nodeid(int *nlist, int nprocs)
   Integer i, procs;
   Integer *list;
   procs = (Integer)(nprocs);
-  list = malloc(procs*sizeof(int));
+  list = malloc(procs*sizeof(Integer));
   wnga_list_nodeid(list, procs);
   for (i=0; i<procs; i++) {
     nlist[i] = (int)list[i];
-- 
2.43.0


From 44ef6074844295f937bc5a929d1e1939bf4bd75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 043/126] fix: splitting a process group leaks the groups the
 caller does not belong to

---
 global/src/base.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index 9b4d70e..9b6ffbd 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1434,6 +1434,8 @@ Integer pnga_pgroup_split(Integer grp, Integer grp_num)
       grp_id = pnga_pgroup_create(nodes, grp_size);
       if (i == end + 1) {
         ret = grp_id;
+      } else {
+        pnga_pgroup_destroy(grp_id);
       }
       icnt = 0;
     }
@@ -1443,6 +1445,8 @@ Integer pnga_pgroup_split(Integer grp, Integer grp_num)
   grp_id = pnga_pgroup_create(nodes, icnt);
   if (end == nprocs-1) {
     ret = grp_id;
+  } else {
+    pnga_pgroup_destroy(grp_id);
   }
   pnga_pgroup_set_default(default_grp);
   if(ret==-1) pnga_error("ga_pgroup_split failed",ret);
-- 
2.43.0


From aa6a8f79767cef4150106a477d95a341a2a95eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 044/126] fix: process group creation accepts ranks outside the
 default group

---
 global/src/base.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/base.c b/global/src/base.c
index 9b6ffbd..fdecf87 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1127,7 +1127,7 @@ Integer pnga_pgroup_create(Integer *list, Integer count)
        pnga_error(" Too many process groups ", (Integer)_max_global_array);
  
     /* Check list for validity (no duplicates and no out of range entries) */
-    nprocs = GAnproc;
+    nprocs = pnga_nnodes();
     for (i=0; i<count; i++) {
        if (list[i] <0 || list[i] >= nprocs)
 	  pnga_error(" invalid element in list ", list[i]);
-- 
2.43.0


From 5520daf4c14dabe442cc49f11e23f19b5a409e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 045/126] fix: GA_Fence does not wait for scatters, strided
 transfers and group scatter-accumulates

---
 global/src/onesided.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 5da3032..2e3dd4a 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -2355,11 +2355,10 @@ int rc=0;
   desc.dst_ptr_array = ptr_dst;
   desc.ptr_array_len = (int)nv;
 
-  if(GA_fence_set)fence_array[proc]=1;
-
   if (p_handle >= 0) {
     proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
   }
+  if(GA_fence_set)fence_array[proc]=1;
   if(alpha != NULL) {
     int optype=-1;
     if(type==C_DBL) optype= ARMCI_ACC_DBL;
@@ -2598,6 +2597,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[aproc[k]];
         }
 
+        if(GA_fence_set)fence_array[iproc]=1;
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2615,6 +2615,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         }
 
+        if(GA_fence_set)fence_array[iproc]=1;
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2636,6 +2637,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         }
 
+        if(GA_fence_set)fence_array[iproc]=1;
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2658,6 +2660,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         }
 
+        if(GA_fence_set)fence_array[iproc]=1;
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -3555,6 +3558,7 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
             desc.src_ptr_array = ptr_loc;
             desc.dst_ptr_array = ptr_rem;
             desc.ptr_array_len = (int)nelems[iproc];
+            if(GA_fence_set)fence_array[tproc]=1;
             rc=ARMCI_PutV(&desc, 1, (int)tproc);
             if(rc) pnga_error("scatter failed in armci",rc);
             break;
@@ -3572,6 +3576,7 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
               else if(type==C_LONG)optype= ARMCI_ACC_LNG;
               else if(type==C_FLOAT)optype= ARMCI_ACC_FLT; 
               else pnga_error("type not supported",type);
+              if(GA_fence_set)fence_array[tproc]=1;
               rc= ARMCI_AccV(optype, alpha, &desc, 1, (int)tproc);
             }
             if(rc) pnga_error("scatter_acc failed in armci",rc);
@@ -4292,6 +4297,7 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       if (p_handle != -1) {
         proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
       }
+      if(GA_fence_set)fence_array[proc]=1;
       ARMCI_PutS(pbuf, stride_loc, prem, stride_rem, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
@@ -4464,6 +4470,7 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       if (p_handle != -1) {
         proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
       }
+      if(GA_fence_set)fence_array[proc]=1;
       ARMCI_AccS(optype, alpha, pbuf, stride_loc, prem, stride_rem, count,
           nstride-1, proc);
   }
-- 
2.43.0


From ebd1c25b9461ab83d000797d8d0d436bda70a176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 046/126] fix: strided transfers of arrays on process groups
 address the wrong process

---
 global/src/onesided.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 2e3dd4a..3b0d210 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -4293,10 +4293,6 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
       if(GA_fence_set)fence_array[proc]=1;
       ARMCI_PutS(pbuf, stride_loc, prem, stride_rem, count, nstride-1, proc);
   }
@@ -4374,10 +4370,6 @@ void pnga_strided_get(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
       ARMCI_GetS(prem, stride_rem, pbuf, stride_loc, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
@@ -4466,10 +4458,6 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
       if(GA_fence_set)fence_array[proc]=1;
       ARMCI_AccS(optype, alpha, pbuf, stride_loc, prem, stride_rem, count,
           nstride-1, proc);
-- 
2.43.0


From d7cba9af3981f052ab93097751365b27e56eb221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 047/126] fix: gather and scatter address the wrong process for
 restricted arrays on groups

---
 global/src/onesided.c | 73 +++++++++++++++++--------------------------
 1 file changed, 29 insertions(+), 44 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 3b0d210..c2f3a72 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -2589,13 +2589,11 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
         desc.src_ptr_array = ptr_src[k];
         desc.dst_ptr_array = ptr_dst[k];
         desc.ptr_array_len = (int)nelem[aproc[k]];
-        if (p_handle < 0) {
-          iproc = aproc[k];
-          if (GA[handle].num_rstrctd > 0)
-            iproc = GA[handle].rstrctd_list[iproc];
-        } else {
-          iproc = PGRP_LIST[p_handle].inv_map_proc_list[aproc[k]];
-        }
+        iproc = aproc[k];
+        if (GA[handle].num_rstrctd > 0)
+          iproc = GA[handle].rstrctd_list[iproc];
+        if (p_handle >= 0)
+          iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
 
         if(GA_fence_set)fence_array[iproc]=1;
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
@@ -2935,13 +2933,11 @@ void gai_gatscat(int op, Integer g_a, void* v, Integer subscript[],
             desc.dst_ptr_array = ptr_dst[k];
             desc.ptr_array_len = (int)nelem[aproc[k]];
 
-            if (p_handle < 0) {
-              iproc = aproc[k];
-              if (GA[handle].num_rstrctd > 0)
-                iproc = GA[handle].rstrctd_list[iproc];
-            } else {
-              iproc = PGRP_LIST[p_handle].inv_map_proc_list[aproc[k]];
-            }
+            iproc = aproc[k];
+            if (GA[handle].num_rstrctd > 0)
+              iproc = GA[handle].rstrctd_list[iproc];
+            if (p_handle >= 0)
+              iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
             rc=ARMCI_GetV(&desc, 1, (int)iproc);
             if(rc) pnga_error("gather failed in armci",rc);
           }
@@ -3063,13 +3059,11 @@ void gai_gatscat(int op, Integer g_a, void* v, Integer subscript[],
             desc.ptr_array_len = (int)nelem[aproc[k]];
 
 
-            if (p_handle < 0) {
-              iproc = aproc[k];
-              if (GA[handle].num_rstrctd > 0)
-                iproc = GA[handle].rstrctd_list[iproc];
-            } else {
-              iproc = PGRP_LIST[p_handle].inv_map_proc_list[aproc[k]];
-            }
+            iproc = aproc[k];
+            if (GA[handle].num_rstrctd > 0)
+              iproc = GA[handle].rstrctd_list[iproc];
+            if (p_handle >= 0)
+              iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
             if(GA_fence_set) fence_array[iproc]=1;
 
             rc=ARMCI_PutV(&desc, 1, (int)iproc);
@@ -3201,13 +3195,11 @@ void gai_gatscat(int op, Integer g_a, void* v, Integer subscript[],
             desc.dst_ptr_array = ptr_dst[k];
             desc.ptr_array_len = (int)nelem[aproc[k]];
 
-            if (p_handle < 0) {
-              iproc = aproc[k];
-              if (GA[handle].num_rstrctd > 0)
-                iproc = GA[handle].rstrctd_list[iproc];
-            } else {
-              iproc = PGRP_LIST[p_handle].inv_map_proc_list[aproc[k]];
-            }
+            iproc = aproc[k];
+            if (GA[handle].num_rstrctd > 0)
+              iproc = GA[handle].rstrctd_list[iproc];
+            if (p_handle >= 0)
+              iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
             if(GA_fence_set) fence_array[iproc]=1;
 
             if(alpha != NULL) {
@@ -3534,15 +3526,10 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
         /* correct remote proc if restricted arrays or processor groups are
          * being used
          */
-        if (num_rstrctd > 0) {
-          tproc = GA[handle].rstrctd_list[iproc];
-        } else {
-          if (p_handle < 0) {
-            tproc = iproc;
-          } else {
-            tproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
-          }
-        }
+        tproc = iproc;
+        if (num_rstrctd > 0) tproc = GA[handle].rstrctd_list[tproc];
+        if (p_handle >= 0)
+          tproc = PGRP_LIST[p_handle].inv_map_proc_list[tproc];
         /* perform vector operation */
         switch(op) { 
           case GATHER:
@@ -3878,13 +3865,11 @@ void pnga_gather2d(Integer g_a, void *v, Integer *i, Integer *j,
         desc.src_ptr_array = ptr_src[k];
         desc.dst_ptr_array = ptr_dst[k];
         desc.ptr_array_len = (int)nelem[aproc[k]];
-        if (p_handle < 0) {
-          iproc = aproc[k];
-          if (GA[handle].num_rstrctd > 0)
-            iproc = GA[handle].rstrctd_list[iproc];
-        } else {
-          iproc = PGRP_LIST[p_handle].inv_map_proc_list[aproc[k]]; 
-        }
+        iproc = aproc[k];
+        if (GA[handle].num_rstrctd > 0)
+          iproc = GA[handle].rstrctd_list[iproc];
+        if (p_handle >= 0)
+          iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         rc=ARMCI_GetV(&desc, 1, (int)iproc);
         if(rc) pnga_error("gather failed in armci",rc);
       }
-- 
2.43.0


From b343d4349a304e8ee1005d125bfc09d667c521ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 048/126] fix: bin index construction communicates across the
 world instead of the default group

---
 global/src/sparse.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/global/src/sparse.c b/global/src/sparse.c
index d8318b8..84b9416 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -705,13 +705,21 @@ int workR[NWORK], workL[NWORK];
 static void sgai_bin_offset(int scope, int *x, int n, int *offset)
 {
 int root, up, left, right;
-int len, lenmes, tag=32100, i, me=armci_msg_me();
+int len, lenmes, tag=32100, i, me=(int)pnga_nodeid(), nproc=(int)pnga_nnodes();
+Integer grp=pnga_pgroup_get_default();
 
     if(!x)pnga_error("sgai_bin_offset: NULL pointer", n);
     if(n>NWORK)pnga_error("sgai_bin_offset: >NWORK", n);
     len = sizeof(int)*n;
 
-    armci_msg_bintree(scope, &root, &up, &left, &right);
+    /* binary tree over the processes of the default group */
+    root = 0;
+    up = me > root ? (me-1)/2 : -1;
+    left = 2*me + 1 < nproc ? 2*me + 1 : -1;
+    right = 2*me + 2 < nproc ? 2*me + 2 : -1;
+    if (up > -1) up = (int)pnga_pgroup_absolute_id(grp, (Integer)up);
+    if (left > -1) left = (int)pnga_pgroup_absolute_id(grp, (Integer)left);
+    if (right > -1) right = (int)pnga_pgroup_absolute_id(grp, (Integer)right);
 
     /* up-tree phase: collect number of elements */
     if (left > -1) armci_msg_rcv(tag, workL, len, &lenmes, left);
-- 
2.43.0


From 0044994a6572f7a6370cafa722cc93c9379108da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 049/126] fix: removing the read-cache property leaves the
 array in read-cache mode

---
 global/src/base.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/base.c b/global/src/base.c
index fdecf87..e596744 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2490,6 +2490,7 @@ void pnga_unset_property(Integer g_a) {
       }
     }
     GA[ga_handle].cache_head = NULL;
+    GA[ga_handle].property = NO_PROPERTY;
   } else {
     GA[ga_handle].property = NO_PROPERTY;
   }
-- 
2.43.0


From 0ae9e103992b09387bfeb4dfa41fe2ef62ffbdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 050/126] fix: reads served from the read cache ignore the
 leading dimensions of the caller's buffer

---
 global/src/onesided.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index c2f3a72..e3617bb 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1229,7 +1229,7 @@ void pnga_get(Integer g_a, Integer *lo, Integer *hi,
           }
           /* copy data to recieve buffer */
           gai_mem_copy(GA[handle].elemsize,ndim,temp_buf,nstart,ncount,nld,buf,
-              bstart, ncount /*ld*/);
+              bstart, ld);
           match = 1;
           break;
         }
-- 
2.43.0


From ca2cefe3ebd34ab91f99f7e9732f28b68fe87df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 051/126] fix: changing the memory limit a second time adjusts
 the available memory from the wrong limit

---
 global/src/base.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index e596744..4bffa89 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -644,10 +644,11 @@ void pnga_set_memory_limit(Integer mem_limit)
   if(GA_memory_limited){
 
     /* if we had the limit set we need to adjust the amount available */
-    if (mem_limit>=0)
+    if (mem_limit>=0) {
       /* adjust the current value by diff between old and new limit */
       GA_total_memory += (mem_limit - GA_memory_limit);     
-    else{
+      GA_memory_limit = mem_limit;
+    } else{
 
       /* negative values reset limit to "unlimited" */
       GA_memory_limited =  0;     
-- 
2.43.0


From 6cdcc6c4e15365f16dbaa8211521004159c3382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 052/126] fix: destroying a read-only array frees its process
 group before the memory allocated on it

---
 global/src/base.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 4bffa89..efb7404 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4014,10 +4014,7 @@ int local_sync_begin,local_sync_end;
     }
     GA[ga_handle].cache_head = NULL;
 
-    if (GA[ga_handle].property == READ_ONLY) {
-      free(GA[ga_handle].old_mapc);
-      pnga_pgroup_destroy(GA[ga_handle].p_handle);
-    }
+    if (GA[ga_handle].property == READ_ONLY) free(GA[ga_handle].old_mapc);
 
     if(GA[ga_handle].ptr[grp_me]==NULL){
        return TRUE;
@@ -4053,6 +4050,8 @@ int local_sync_begin,local_sync_end;
 
 
     if(local_sync_end)pnga_pgroup_sync(grp_id);
+    /* the node group of a read-only array is still needed to free its memory */
+    if (GA[ga_handle].property == READ_ONLY) pnga_pgroup_destroy(grp_id);
     return(TRUE);
 }
 
-- 
2.43.0


From 47c58c8695359f3a67a82e336cfc71ae8b763457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 053/126] fix: making an array read-only changes the default
 process group

---
 global/src/base.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/base.c b/global/src/base.c
index efb7404..35ae357 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2122,6 +2122,7 @@ void pnga_set_property(Integer g_a, char* property) {
     }
     handle = pnga_pgroup_create(list, nprocs);
     free(list);
+    pnga_pgroup_set_default(dflt_grp);
     GA[ga_handle].p_handle = handle;
     GA[ga_handle].property = READ_ONLY;
 
-- 
2.43.0


From d3444f9819b18c33555eb846c0965a304c9ce55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 054/126] fix: duplicates of overlaid, read-only and
 read-cached arrays share resources with the original

---
 global/src/base.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index 35ae357..3e8694c 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3794,6 +3794,21 @@ logical pnga_duplicate(Integer g_a, Integer *g_b, char* array_name)
   /*** ghost cache data is initialized once memory has been allocated ***/
   GA[ga_handle].cache = NULL;
 
+  /*** the new array has memory, a read cache and, if it is read-only, a
+   *** process group and original distribution of its own ***/
+  GA[ga_handle].overlay = 0;
+  GA[ga_handle].cache_head = NULL;
+  if (GA[ga_handle].property == READ_ONLY) {
+    int btot = 1;
+    for (i=0; i<GA[ga_handle].ndim; i++) btot += GA[ga_handle].old_nblock[i];
+    GA[ga_handle].old_mapc = (Integer*)malloc(btot*sizeof(Integer));
+    for (i=0; i<btot; i++)
+      GA[ga_handle].old_mapc[i] = GA[GA_OFFSET + g_a].old_mapc[i];
+    grp_id = pnga_pgroup_duplicate(grp_id);
+    grp_me = PGRP_LIST[grp_id].map_proc_list[GAme];
+    GA[ga_handle].p_handle = grp_id;
+  }
+
   /*** initialize and copy info for restricted arrays, if relevant ***/
   GA[ga_handle].rstrctd_list = NULL;
   GA[ga_handle].rank_rstrctd = NULL;
-- 
2.43.0


From 23256205f7ef3c76301fbe41ac72a79cb5a16b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 055/126] fix: removing the read-only property keeps the block
 lookup scale of the read-only distribution

---
 global/src/base.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index 3e8694c..37b0449 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2397,6 +2397,8 @@ void pnga_unset_property(Integer g_a) {
     btot = 0;
     for (i=0; i<ndim; i++) {
       GA[ga_handle].nblock[i] = GA[ga_handle].old_nblock[i];
+      GA[ga_handle].scale[i] = (double)GA[ga_handle].nblock[i]
+        / (double)GA[ga_handle].dims[i];
       GA[ga_handle].lo[i] = GA[ga_handle].old_lo[i];
       GA[ga_handle].chunk[i] = GA[ga_handle].old_chunk[i];
       btot += GA[ga_handle].nblock[i];
-- 
2.43.0


From 03407ff53cdbef776ff701bb5440af27b4e71a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 056/126] fix: setting read-only on arrays with ghosts or
 restricted arrays corrupts memory instead of being refused

---
 global/src/base.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index 37b0449..3fed3f4 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2089,6 +2089,9 @@ void pnga_set_property(Integer g_a, char* property) {
     if (GA[ga_handle].p_handle != pnga_pgroup_get_world()) {
       pnga_error("Arrays on subgroups not supported for READ_ONLY",0);
     }
+    if (GA[ga_handle].ghosts || GA[ga_handle].num_rstrctd > 0) {
+      pnga_error("Arrays with ghosts or restricted arrays not supported for READ_ONLY",0);
+    }
     ndim = (int)GA[ga_handle].ndim;
     btot = 0;
     for (i=0; i<ndim; i++) {
-- 
2.43.0


From 5ea61ff1dc2f5c5ad0d4ebf37ce39d3b5862999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 057/126] fix: sparse matrix-vector product of complex matrices
 multiplies the vector by itself

---
 global/src/sparse.array.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 9091eb4..00f39b4 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1234,10 +1234,10 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
       for (j=0; j<ncols; j++) {                                \
             rbuf = _buf[2*(_jptr[_iptr[i-ilo]+j]-jlo)];        \
             ibuf = _buf[2*(_jptr[_iptr[i-ilo]+j]-jlo)+1];      \
-            rval = _buf[2*(_iptr[i-ilo]+j)];                   \
-            ival = _buf[2*(_iptr[i-ilo]+j)+1];                 \
-            _sum[2*(i-ilo)] = rval*rbuf-ival*ibuf;             \
-            _sum[2*(i-ilo)+1] = rval*ibuf+ival*rbuf;           \
+            rval = _ptr[2*(_iptr[i-ilo]+j)];                   \
+            ival = _ptr[2*(_iptr[i-ilo]+j)+1];                 \
+            _sum[2*(i-ilo)] += rval*rbuf-ival*ibuf;            \
+            _sum[2*(i-ilo)+1] += rval*ibuf+ival*rbuf;          \
       }                                                        \
     }                                                          \
     free(_buf);                                                \
-- 
2.43.0


From 5cd78e30f4278cb7eeb9ecb02c7910c34dcb1d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 058/126] fix: sparse matrix-vector product requires the result
 to have the length of the source vector

---
 global/src/sparse.array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 00f39b4..2c7ed7c 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1174,8 +1174,8 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
   if (adim != SPA[s_hdl].jdim) {
     pnga_error("length of A must equal second dimension of sparse matrix",adim);
   }
-  if (vdim != SPA[s_hdl].jdim) {
-    pnga_error("length of V must equal second dimension of sparse matrix",vdim);
+  if (vdim != SPA[s_hdl].idim) {
+    pnga_error("length of V must equal first dimension of sparse matrix",vdim);
   }
   if (atype != SPA[s_hdl].type || vtype != SPA[s_hdl].type) {
     pnga_error("Data type of sparse matrix and A and V vectors must match",
-- 
2.43.0


From 21febb2b1a343ad4a9210c41e1330c5f6c11be6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 059/126] fix: sparse matrix-vector product adds uninitialised
 memory for empty row blocks

---
 global/src/sparse.array.c | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 2c7ed7c..ff09eea 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1158,7 +1158,6 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
   Integer one = 1;
   Integer adim, vdim, arank, vrank, dims[GA_MAX_DIM];
   Integer atype, vtype;
-  Integer zflag;
 
   local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
@@ -1194,12 +1193,6 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
     _type *_buf = (_type*)malloc((jhi-jlo+1)*sizeof(_type)); \
     _type *_sum = (_type*)vsum;                              \
     _type *_ptr = (_type*)vptr;                              \
-    if (zflag) {                                             \
-      for (i=ilo; i<=ihi; i++) {                             \
-        _sum[i-ilo] = (_type)0;                              \
-      }                                                      \
-      zflag = 0;                                             \
-    }                                                        \
     klo = jlo+1;                                             \
     khi = jhi+1;                                             \
     pnga_get(g_a,&klo,&khi,_buf,&one);                       \
@@ -1219,13 +1212,6 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
     _type *_sum = (_type*)vsum;                                \
     _type *_ptr = (_type*)vptr;                                \
     _type rbuf,ibuf,rval,ival;                                 \
-    if (zflag) {                                               \
-      for (i=ilo; i<=ihi; i++) {                               \
-        _sum[2*(i-ilo)] = 0.0;                                 \
-        _sum[2*(i-ilo)+1] = 0.0;                               \
-      }                                                        \
-      zflag = 0;                                               \
-    }                                                          \
     klo = jlo+1;                                               \
     khi = jhi+1;                                               \
     pnga_get(g_a,&klo,&khi,_buf,&one);                         \
@@ -1249,7 +1235,7 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
   /* multiply sparse matrix by sparse vector */
   pnga_sprs_array_row_distribution(s_a,me,&ilo,&ihi);
   vsum = (void*)malloc((ihi-ilo+1)*SPA[s_hdl].size);
-  zflag = 1;
+  memset(vsum,0,(ihi-ilo+1)*SPA[s_hdl].size);
   for (iproc=0; iproc<nproc; iproc++) {
     pnga_sprs_array_column_distribution(s_a,iproc,&jlo,&jhi);
     if (idx_size == 4) {
-- 
2.43.0


From 244bef6ecf9633e7b91f9acbc608fc198dc55131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 060/126] fix: sparse matrix-vector product is only right for
 doubles (accumulate scale of the wrong type)

---
 global/src/sparse.array.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index ff09eea..95eee70 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1154,7 +1154,6 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
   int64_t *ilptr = NULL, *jlptr = NULL;
   int *iptr = NULL, *jptr = NULL;
   Integer i, j, iproc, ncols;
-  double one_r = 1.0;
   Integer one = 1;
   Integer adim, vdim, arank, vrank, dims[GA_MAX_DIM];
   Integer atype, vtype;
@@ -1284,7 +1283,7 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
   if (ihi>=ilo) {
     klo = ilo + 1;
     khi = ihi + 1;
-    pnga_acc(g_v,&klo,&khi,vsum,&one,&one_r);
+    pnga_put(g_v,&klo,&khi,vsum,&one);
   }
   if (local_sync_end)  pnga_pgroup_sync(s_grp);
   free(vsum);
-- 
2.43.0


From d3e748a700f058558c4ca7f46001e5b24444752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 061/126] fix: right diagonal product of a sparse matrix checks
 the vector against the row dimension

---
 global/src/sparse.array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 95eee70..2ba40f6 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1843,7 +1843,7 @@ void pnga_sprs_array_diag_right_multiply(Integer s_a, Integer g_d)
   if (local_sync_begin) pnga_pgroup_sync(grp);
 
   /* check for basic compatibility */
-  if (SPA[hdl].idim != GA[d_hdl].dims[0]) {
+  if (SPA[hdl].jdim != GA[d_hdl].dims[0]) {
     pnga_error("(pnga_sprs_array_diag_right_multiply) dimensions don't match",0);
   }
   if (type != GA[d_hdl].type) {
-- 
2.43.0


From 7233dac166453ef2113498e7a9e4450fa6eb72cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 062/126] fix: diagonal products of sparse matrices with fewer
 rows or columns than processes fetch an empty patch

---
 global/src/sparse.array.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 2ba40f6..d5b214e 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1760,7 +1760,7 @@ void pnga_sprs_array_diag_left_multiply(Integer s_a, Integer g_d)
   vbuf = malloc((ihi-ilo+1)*SPA[hdl].size);
   klo = ilo+1;
   khi = ihi+1;
-  pnga_get(g_d,&klo,&khi,vbuf,&one);
+  if (ihi>=ilo) pnga_get(g_d,&klo,&khi,vbuf,&one);
   /* loop over blocks in sparse array */
   for (iproc=0; iproc<nproc; iproc++) {
     pnga_sprs_array_column_distribution(s_a,iproc,&jlo,&jhi);
@@ -1894,7 +1894,7 @@ void pnga_sprs_array_diag_right_multiply(Integer s_a, Integer g_d)
       vbuf = malloc((jhi-jlo+1)*SPA[hdl].size);
       klo = jlo+1;
       khi = jhi+1;
-      pnga_get(g_d,&klo,&khi,vbuf,&one);
+      if (jhi>=jlo) pnga_get(g_d,&klo,&khi,vbuf,&one);
       if (vptr != NULL) {
         if (type == C_INT) {
           SPRS_REAL_RIGHT_MULTIPLY_M(int,iptr,jptr);
@@ -1917,7 +1917,7 @@ void pnga_sprs_array_diag_right_multiply(Integer s_a, Integer g_d)
       vbuf = malloc((jhi-jlo+1)*SPA[hdl].size);
       klo = jlo+1;
       khi = jhi+1;
-      pnga_get(g_d,&klo,&khi,vbuf,&one);
+      if (jhi>=jlo) pnga_get(g_d,&klo,&khi,vbuf,&one);
       if (vptr != NULL) {
         if (type == C_INT) {
           SPRS_REAL_RIGHT_MULTIPLY_M(int,ilptr,jlptr);
-- 
2.43.0


From 8ff48348be79f614ea9014747e39e45a0b620efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 063/126] fix: fetching an empty sparse block leaves the
 returned pointers undefined

---
 global/src/sparse.array.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index d5b214e..a3f4bca 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -2241,9 +2241,9 @@ logical pnga_sprs_array_get_block(Integer s_a, Integer irow, Integer icol,
     */
   } else {
     /* block has no data */
-    *idx == NULL;
-    *jdx == NULL;
-    *data == NULL;
+    *idx = NULL;
+    *jdx = NULL;
+    *data = NULL;
     ret = 0;
   }
   return ret;
-- 
2.43.0


From d4ab398ca408953c58f957d42f4cd308327b0489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:58 +0000
Subject: [PATCH 064/126] fix: sparse matrix products with 32 bit indices read
 the indices as 64 bit values

---
 global/src/sparse.array.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index a3f4bca..3162375 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -2494,6 +2494,23 @@ void update_map(Integer **top, Integer **list, Integer **idx, Integer **jdx,
 }
 #endif
 
+/**
+ * Convert 32 bit indices stored in a buffer that has room for Integers to
+ * Integers
+ * @param buf buffer holding indices
+ * @param n number of indices
+ */
+static void sai_widen_indices(void *buf, Integer n)
+{
+  int val;
+  Integer ival;
+  while (n-- > 0) {
+    memcpy(&val,(char*)buf+n*sizeof(int),sizeof(int));
+    ival = (Integer)val;
+    memcpy((char*)buf+n*sizeof(Integer),&ival,sizeof(Integer));
+  }
+}
+
 /**
  * Multiply sparse matrices A and B to get sparse matrix C
  * C = A.B
@@ -2601,10 +2618,18 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
       Integer ii,jlen;
       if (!pnga_sprs_array_get_block(s_a, me, l, &iptr, &jptr,
             &data_a, &ilo_a, &ihi_a, &jlo_a, &jhi_a)) continue;
+      if (!longidx) {
+        sai_widen_indices(iptr, ihi_a-ilo_a+2);
+        sai_widen_indices(jptr, ((Integer*)iptr)[ihi_a-ilo_a+1]);
+      }
       idx_a = (Integer*)iptr;
       jdx_a = (Integer*)jptr;
       if (!pnga_sprs_array_get_block(s_b, l, n, &iptr, &jptr,
             &data_b, &ilo_b, &ihi_b, &jlo_b, &jhi_b)) continue;
+      if (!longidx) {
+        sai_widen_indices(iptr, ihi_b-ilo_b+2);
+        sai_widen_indices(jptr, ((Integer*)iptr)[ihi_b-ilo_b+1]);
+      }
       idx_b = (Integer*)iptr;
       jdx_b = (Integer*)jptr;
       if (type == C_INT) {
-- 
2.43.0


From 550e6a3c2efebf0294edf6609eeff36f11ac43f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:58 +0000
Subject: [PATCH 065/126] fix: sparse matrix product writes past its block
 offsets on processes without product blocks

---
 global/src/sparse.array.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 3162375..bb28520 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -2702,12 +2702,10 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
     if (count[i] > 0) {
       SPA[hdl_c].blkidx[nblocks] = i;
       SPA[hdl_c].blksize[nblocks] = count[i];
-      if (nblocks>0) SPA[hdl_c].offset[nblocks] = SPA[hdl_c].offset[nblocks-1]
-        + SPA[hdl_c].blksize[nblocks-1];
       nblocks++;
     }
   }
-  SPA[hdl_c].offset[0] = 0;
+  if (nblocks > 0) SPA[hdl_c].offset[0] = 0;
   for (i=1; i<nblocks; i++) {
     SPA[hdl_c].offset[i] = SPA[hdl_c].offset[i-1]+SPA[hdl_c].blksize[i-1];
   }
-- 
2.43.0


From 375e8c651818b3cacc8d9abbf548918605ea7a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:58 +0000
Subject: [PATCH 066/126] fix: diagonal extraction of a sparse matrix only
 searches one column block, and dereferences null if it is empty

---
 global/src/sparse.array.c | 94 ++++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 45 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index bb28520..d1b18d4 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1591,7 +1591,7 @@ void pnga_sprs_array_get_diag(Integer s_a, Integer *g_d)
   Integer iproc;
   Integer one = 1;
   Integer lo, hi;
-  Integer ilo, ihi, jlo, jhi, ncols;
+  Integer ilo, ihi, ncols;
   int *iptr, *jptr;
   int64_t *ilptr, *jlptr;
   int idx_size = SPA[hdl].idx_size;
@@ -1625,61 +1625,65 @@ void pnga_sprs_array_get_diag(Integer s_a, Integer *g_d)
    * must be zero */
   pnga_zero(*g_d);
   pnga_distribution(*g_d,me,&lo,&hi);
-  pnga_access_ptr(*g_d, &lo, &hi, &diag, &one);
+  if (lo <= hi) pnga_access_ptr(*g_d, &lo, &hi, &diag, &one);
   /* extract diagonal elements */
   pnga_sprs_array_row_distribution(s_a,me,&ilo,&ihi);
-  pnga_sprs_array_column_distribution(s_a,me,&jlo,&jhi);
-  if (idx_size == 4) {
-    pnga_sprs_array_access_col_block(s_a,me,&iptr,&jptr,&vptr);
-    for (i=ilo; i<=ihi; i++) {
-      ncols = iptr[i+1-ilo]-iptr[i-ilo];
-      for (j=0; j<ncols; j++) {
-        if (i == jptr[iptr[i-ilo]+j]) {
-          if (SPA[hdl].type == C_INT) {
-            ((int*)diag)[i-ilo] = ((int*)vptr)[iptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_LONG) {
-            ((long*)diag)[i-ilo] = ((long*)vptr)[iptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_LONGLONG) {
-            ((long long*)diag)[i-ilo] = ((long long*)vptr)[iptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_FLOAT) {
-            ((float*)diag)[i-ilo] = ((float*)vptr)[iptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_DBL) {
-            ((double*)diag)[i-ilo] = ((double*)vptr)[iptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_SCPL) {
-            ((SingleComplex*)diag)[i-ilo] = ((SingleComplex*)vptr)[iptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_DCPL) {
-            ((DoubleComplex*)diag)[i-ilo] = ((DoubleComplex*)vptr)[iptr[i-ilo]+j];
+  /* the diagonal can pass through any column block if the matrix is not square */
+  for (iproc=0; iproc<nproc; iproc++) {
+    if (idx_size == 4) {
+      pnga_sprs_array_access_col_block(s_a,iproc,&iptr,&jptr,&vptr);
+      if (vptr == NULL) continue;
+      for (i=ilo; i<=ihi; i++) {
+        ncols = iptr[i+1-ilo]-iptr[i-ilo];
+        for (j=0; j<ncols; j++) {
+          if (i == jptr[iptr[i-ilo]+j]) {
+            if (SPA[hdl].type == C_INT) {
+              ((int*)diag)[i-ilo] = ((int*)vptr)[iptr[i-ilo]+j];
+            } else if (SPA[hdl].type == C_LONG) {
+              ((long*)diag)[i-ilo] = ((long*)vptr)[iptr[i-ilo]+j];
+            } else if (SPA[hdl].type == C_LONGLONG) {
+              ((long long*)diag)[i-ilo] = ((long long*)vptr)[iptr[i-ilo]+j];
+            } else if (SPA[hdl].type == C_FLOAT) {
+              ((float*)diag)[i-ilo] = ((float*)vptr)[iptr[i-ilo]+j];
+            } else if (SPA[hdl].type == C_DBL) {
+              ((double*)diag)[i-ilo] = ((double*)vptr)[iptr[i-ilo]+j];
+            } else if (SPA[hdl].type == C_SCPL) {
+              ((SingleComplex*)diag)[i-ilo] = ((SingleComplex*)vptr)[iptr[i-ilo]+j];
+            } else if (SPA[hdl].type == C_DCPL) {
+              ((DoubleComplex*)diag)[i-ilo] = ((DoubleComplex*)vptr)[iptr[i-ilo]+j];
+            }
           }
         }
       }
-    }
-  } else {
-    pnga_sprs_array_access_col_block(s_a,me,&ilptr,&jlptr,&vptr);
-    for (i=ilo; i<=ihi; i++) {
-      ncols = ilptr[i+1-ilo]-ilptr[i-ilo];
-      for (j=0; j<ncols; j++) {
-        if (i == jlptr[ilptr[i-ilo]+j]) {
-          if (SPA[hdl].type == C_INT) {
-            ((int*)diag)[i-ilo] = ((int*)vptr)[ilptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_LONG) {
-            ((long*)diag)[i-ilo] = ((long*)vptr)[ilptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_LONGLONG) {
-            ((long long*)diag)[i-ilo] = ((long long*)vptr)[ilptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_FLOAT) {
-            ((float*)diag)[i-ilo] = ((float*)vptr)[ilptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_DBL) {
-            ((double*)diag)[i-ilo] = ((double*)vptr)[ilptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_SCPL) {
-            ((SingleComplex*)diag)[i-ilo] = ((SingleComplex*)vptr)[ilptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_DCPL) {
-            ((DoubleComplex*)diag)[i-ilo] = ((DoubleComplex*)vptr)[ilptr[i-ilo]+j];
+    } else {
+      pnga_sprs_array_access_col_block(s_a,iproc,&ilptr,&jlptr,&vptr);
+      if (vptr == NULL) continue;
+      for (i=ilo; i<=ihi; i++) {
+        ncols = ilptr[i+1-ilo]-ilptr[i-ilo];
+        for (j=0; j<ncols; j++) {
+          if (i == jlptr[ilptr[i-ilo]+j]) {
+            if (SPA[hdl].type == C_INT) {
+              ((int*)diag)[i-ilo] = ((int*)vptr)[ilptr[i-ilo]+j];
+            } else if (SPA[hdl].type == C_LONG) {
+              ((long*)diag)[i-ilo] = ((long*)vptr)[ilptr[i-ilo]+j];
+            } else if (SPA[hdl].type == C_LONGLONG) {
+              ((long long*)diag)[i-ilo] = ((long long*)vptr)[ilptr[i-ilo]+j];
+            } else if (SPA[hdl].type == C_FLOAT) {
+              ((float*)diag)[i-ilo] = ((float*)vptr)[ilptr[i-ilo]+j];
+            } else if (SPA[hdl].type == C_DBL) {
+              ((double*)diag)[i-ilo] = ((double*)vptr)[ilptr[i-ilo]+j];
+            } else if (SPA[hdl].type == C_SCPL) {
+              ((SingleComplex*)diag)[i-ilo] = ((SingleComplex*)vptr)[ilptr[i-ilo]+j];
+            } else if (SPA[hdl].type == C_DCPL) {
+              ((DoubleComplex*)diag)[i-ilo] = ((DoubleComplex*)vptr)[ilptr[i-ilo]+j];
+            }
           }
         }
       }
     }
   }
   free(map);
-  pnga_release_update(*g_d, &lo, &hi);
+  if (lo <= hi) pnga_release_update(*g_d, &lo, &hi);
   if (local_sync_end) pnga_pgroup_sync(grp);
 }
 
-- 
2.43.0


From b34973d36ffd72b26662cb4118ba8fada419f740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 067/126] fix: export of complex sparse matrices prints wrong
 values after the first column block

---
 global/src/sparse.array.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index d1b18d4..08c15ff 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1515,12 +1515,12 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
                 int64_t val = ((int64_t*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
               } else if (type == C_SCPL) {
-                float rval = ((float*)vptr)[2*k+loffset];
-                float ival = ((float*)vptr)[2*k+1+loffset];
+                float rval = ((float*)vptr)[2*(k+loffset)];
+                float ival = ((float*)vptr)[2*(k+loffset)+1];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,rval,ival);
               } else if (type == C_DCPL) {
-                double rval = ((double*)vptr)[2*k+loffset];
-                double ival = ((double*)vptr)[2*k+1+loffset];
+                double rval = ((double*)vptr)[2*(k+loffset)];
+                double ival = ((double*)vptr)[2*(k+loffset)+1];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,rval,ival);
               }
             }
@@ -1543,12 +1543,12 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
                 int64_t val = ((int64_t*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
               } else if (type == C_SCPL) {
-                float rval = ((float*)vptr)[2*k+loffset];
-                float ival = ((float*)vptr)[2*k+1+loffset];
+                float rval = ((float*)vptr)[2*(k+loffset)];
+                float ival = ((float*)vptr)[2*(k+loffset)+1];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,rval,ival);
               } else if (type == C_DCPL) {
-                double rval = ((double*)vptr)[2*k+loffset];
-                double ival = ((double*)vptr)[2*k+1+loffset];
+                double rval = ((double*)vptr)[2*(k+loffset)];
+                double ival = ((double*)vptr)[2*(k+loffset)+1];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,rval,ival);
               }
             }
-- 
2.43.0


From 82599c1bfc3efe394870fa9fc189f6710bd3dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 068/126] fix: export of long long sparse matrices omits the
 values

---
 global/src/sparse.array.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 08c15ff..4d67105 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1443,7 +1443,7 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
   } else if (type == C_INT) {
     strncpy(cptr," \%d",3);
     offset = 3;
-  } else if (type == C_LONG) {
+  } else if (type == C_LONG || type == C_LONGLONG) {
     strncpy(cptr," \%ld",4);
     offset = 4;
   } else if (type == C_SCPL || type == C_DCPL) {
@@ -1511,7 +1511,7 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
               } else if (type == C_INT) {
                 int val = ((int*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
-              } else if (type == C_LONG) {
+              } else if (type == C_LONG || type == C_LONGLONG) {
                 int64_t val = ((int64_t*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
               } else if (type == C_SCPL) {
@@ -1539,7 +1539,7 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
               } else if (type == C_INT) {
                 int val = ((int*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
-              } else if (type == C_LONG) {
+              } else if (type == C_LONG || type == C_LONGLONG) {
                 int64_t val = ((int64_t*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
               } else if (type == C_SCPL) {
-- 
2.43.0


From 9eebf43c69a030a87c25a5cdd13b41fba49f7a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 069/126] fix: export of sparse matrices with empty row blocks
 fails

---
 global/src/sparse.array.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 4d67105..f75a50e 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1471,17 +1471,17 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
       pnga_distribution(SPA[hdl].g_data, iproc, &lo, &hi);
       nlen_data = hi-lo+1;
       vptr = malloc(nlen_data*size);
-      pnga_get(SPA[hdl].g_data,&lo,&hi,vptr,&ld);
+      if (lo <= hi) pnga_get(SPA[hdl].g_data,&lo,&hi,vptr,&ld);
 
       pnga_distribution(SPA[hdl].g_i, iproc, &lo, &hi);
       nlen_i = hi-lo+1;
       iptr = malloc(nlen_i*idx_size);
-      pnga_get(SPA[hdl].g_i,&lo,&hi,iptr,&ld);
+      if (lo <= hi) pnga_get(SPA[hdl].g_i,&lo,&hi,iptr,&ld);
 
       pnga_distribution(SPA[hdl].g_j, iproc, &lo, &hi);
       nlen_j = hi-lo+1;
       jptr = malloc(nlen_j*idx_size);
-      pnga_get(SPA[hdl].g_j,&lo,&hi,jptr,&ld);
+      if (lo <= hi) pnga_get(SPA[hdl].g_j,&lo,&hi,jptr,&ld);
 
       nblocks = nblock[iproc];
       /* loop over rows. Not the most efficient way of printing out information
-- 
2.43.0


From c5f1da7642aadc5d015b5971b56756ec80faabea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 070/126] fix: dense-sparse product mixes up the row and column
 dimensions of the sparse matrix, and complex elements in the Fortran layout

---
 global/src/sparse.array.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index f75a50e..42d7980 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3928,7 +3928,7 @@ Integer pnga_sprs_array_sprsdns_multiply(Integer s_a, Integer g_b, Integer trans
           _type _ra, _ia, _rb, _ib, _rc, _ic;                        \
           _jj = _jptr_b[_iptr_b[_kk]+_j]-_jlo_b+1;                   \
           _ra = ((_type*)_ptr_a)[2*(_ii+_kk*_ld_a)];                 \
-          _ia = ((_type*)_ptr_a)[2*(_ii*_kk*_ld_a)+1];               \
+          _ia = ((_type*)_ptr_a)[2*(_ii+_kk*_ld_a)+1];               \
           _rb = ((_type*)_ptr_b)[2*(_iptr_b[_kk]+_j)];               \
           _ib = ((_type*)_ptr_b)[2*(_iptr_b[_kk]+_j)+1];             \
           ((_type*)_ptr_c)[2*(_jj*_ld_c + _ii)]                      \
@@ -3998,8 +3998,8 @@ Integer pnga_sprs_array_dnssprs_multiply(Integer g_a, Integer s_b, Integer trans
     pnga_error("(ga_sprs_array_dnssprs_multiply) matrix A must be"
     " of dimension 2",GA[hdl_a].ndim);
   }
-  if ((trans && GA[hdl_a].dims[0] != SPA[hdl_b].jdim) ||
-      (!trans && GA[hdl_a].dims[1] != SPA[hdl_b].jdim)) {
+  if ((trans && GA[hdl_a].dims[0] != SPA[hdl_b].idim) ||
+      (!trans && GA[hdl_a].dims[1] != SPA[hdl_b].idim)) {
     pnga_error("(ga_sprs_array_dnssprs_multiply) column dimension of"
       " A must match row dimension of B",0);
   }
@@ -4096,7 +4096,7 @@ Integer pnga_sprs_array_dnssprs_multiply(Integer g_a, Integer s_b, Integer trans
     Integer tlo_c[2], thi_c[2];
     lo_c[0] = ilo;
     hi_c[0] = ihi;
-    pnga_sprs_array_row_distribution(s_b,l,&lo_c[1],&hi_c[1]);
+    pnga_sprs_array_column_distribution(s_b,l,&lo_c[1],&hi_c[1]);
     lo_c[1]++;
     hi_c[1]++;
     if (trans) {
-- 
2.43.0


From a0c283273e471c0b5a2544129efe2eb26951cbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 071/126] fix: sparse matrix export writes an invalid
 MatrixMarket banner

---
 global/src/sparse.array.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 42d7980..56727af 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1458,7 +1458,8 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
   if (me == 0) {
     /* open file */
     SPRS = fopen(file,"w");
-    fprintf(SPRS,"\%\%MatrixMarket matrix coordinate real general\n");
+    fprintf(SPRS,"%%%%MatrixMarket matrix coordinate %s general\n",
+        (type == C_SCPL || type == C_DCPL) ? "complex" : "real");
     fprintf(SPRS,"%ld %ld %ld\n",SPA[hdl].idim, SPA[hdl].jdim, nnz);
     /* Loop over all row blocks */
     for (iproc = 0; iproc<nprocs; iproc++) {
-- 
2.43.0


From 35f8f8da9461627911e49872b89421529b016af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:44 +0000
Subject: [PATCH 072/126] fix: sparse matrices with fewer elements (or row
 offsets) than processes cannot be assembled or computed

---
 global/src/sparse.array.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 56727af..91a493c 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -407,8 +407,10 @@ logical pnga_sprs_array_assemble(Integer s_a)
     map[i] = map[i-1] + (Integer)size[i-1];
     totalvals += (Integer)size[i];
   }
-  free(size);
   nnz = totalvals;
+  /* the number of blocks in a distribution cannot exceed the dimension. Any
+   * extra elements are located on the last process and are not used */
+  if (totalvals < nproc) totalvals = nproc;
   SPA[hdl].g_data = pnga_create_handle();
   pnga_set_pgroup(SPA[hdl].g_data,SPA[hdl].grp);
   pnga_set_data(SPA[hdl].g_data,one,&totalvals,SPA[hdl].type);
@@ -509,7 +511,8 @@ logical pnga_sprs_array_assemble(Integer s_a)
    * Start by binning data by column index */
   pnga_distribution(SPA[hdl].g_data,me,&lo,&hi);
   free(list);
-  nvals = hi - lo + 1;
+  nvals = (Integer)size[me];
+  free(size);
   list = (Integer*)malloc(nvals*sizeof(Integer));
   /* get pointer to list of j indices */
   for (i=0; i<nproc; i++) {
@@ -654,6 +657,7 @@ logical pnga_sprs_array_assemble(Integer s_a)
     map[i] = map[i-1] + offset[i-1];
     nvals += offset[i];
   }
+  if (nvals < nproc) nvals = nproc;
   SPA[hdl].g_i = pnga_create_handle();
   if (longidx) {
     pnga_set_data(SPA[hdl].g_i,one,&nvals,C_LONG);
@@ -1384,13 +1388,6 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
   if (local_sync_begin) pnga_pgroup_sync(SPA[hdl].grp);
 
-  /* find the total number of nonzero elements on each process */
-  nnz = 0;
-  for (iproc = 0; iproc<nprocs; iproc++) {
-    pnga_distribution(SPA[hdl].g_data,iproc,&lo,&hi);
-    if (hi > nnz) nnz = hi;
-  }
-
   /* find low and hi row indices on each processor */
   ilo = (int*)malloc(nprocs*sizeof(int));
   ihi = (int*)malloc(nprocs*sizeof(int));
@@ -1428,6 +1425,9 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
   }
   pnga_pgroup_gop(SPA[hdl].grp,C_INT,blkmap,nblocks,op);
   pnga_pgroup_gop(SPA[hdl].grp,C_INT,blksize,nblocks,op);
+  /* find the total number of nonzero elements */
+  nnz = 0;
+  for (iproc=0; iproc<nblocks; iproc++) nnz += blksize[iproc];
   /* format print statement */
   if (idx_size == 4) {
     strncpy(frmt,"\%d \%d",5);
@@ -2773,6 +2773,7 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
       if (i>0) offset[i] = offset[i-1]+tmp[i-1];
       map[i] = offset[i]+1; /* 1-based indexing for map array */
     }
+    if (totalsize < nprocs) totalsize = nprocs;
 
     SPA[hdl_c].g_i = pnga_create_handle();
     if (longidx) {
@@ -2808,6 +2809,7 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
     pnga_mask_sync(local_sync_begin,local_sync_end);
     SPA[hdl_c].g_data = pnga_create_handle();
     nnz = totalsize;
+    if (totalsize < nprocs) totalsize = nprocs;
     if (longidx) {
       pnga_set_data(SPA[hdl_c].g_j,ndim,&totalsize,C_LONG);
     } else {
-- 
2.43.0


From 2bbddba9aaeb3d62d6adc0807aa3bf398b26075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 073/126] fix: scaling a sparse matrix fails on processes
 without elements

---
 global/src/sparse.array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 91a493c..b7835e2 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -4270,6 +4270,11 @@ void pnga_sprs_array_scale(Integer s_a, void *scale)
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
   if (local_sync_begin) pnga_pgroup_sync(SPA[hdl_a].grp);
   pnga_distribution(SPA[hdl_a].g_data,me,&s_lo,&s_hi);
+  if (s_lo > s_hi) {
+    /* no data on this process */
+    if (local_sync_end) pnga_pgroup_sync(SPA[hdl_a].grp);
+    return;
+  }
   pnga_access_ptr(SPA[hdl_a].g_data,&s_lo,&s_hi,&vptr,&ld);
   if (SPA[hdl_a].type == C_INT) {
     SPRS_REAL_SCALE_M(int,vptr,s_lo,s_hi,scale);
-- 
2.43.0


From d3ba4b32a47967644b583c8f795d31bff09a9711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 074/126] fix: duplicating a sparse matrix copies per-process
 patches with a collective copy, and fails on processes without data

---
 global/src/sparse.array.c | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index b7835e2..0e11f50 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -2075,12 +2075,8 @@ Integer pnga_sprs_array_duplicate(Integer s_a)
   int local_sync_begin,local_sync_end;
   Integer new_hdl;
   Integer grp = SPA[hdl].grp;
-  Integer me = pnga_pgroup_nodeid(grp);
-  Integer nproc = pnga_pgroup_nnodes(grp);
   Integer s_dup;
-  Integer lo, hi;
   Integer i;
-  char p_trans[2];
 
   local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
@@ -2110,23 +2106,14 @@ Integer pnga_sprs_array_duplicate(Integer s_a)
   }
 
   /* Copy data from old array to new array */
-  p_trans[0]='N';
-  p_trans[1]='\0';
-  pnga_distribution(SPA[new_hdl].g_i,me,&lo,&hi);
   pnga_mask_sync(local_sync_begin,local_sync_end);
-  pnga_copy_patch(p_trans,SPA[hdl].g_i,&lo,&hi,SPA[new_hdl].g_i,&lo,&hi);
-  pnga_distribution(SPA[new_hdl].g_j,me,&lo,&hi);
+  pnga_copy(SPA[hdl].g_i,SPA[new_hdl].g_i);
   pnga_mask_sync(local_sync_begin,local_sync_end);
-  pnga_copy_patch(p_trans,SPA[hdl].g_j,&lo,&hi,SPA[new_hdl].g_j,&lo,&hi);
-  pnga_distribution(SPA[new_hdl].g_data,me,&lo,&hi);
+  pnga_copy(SPA[hdl].g_j,SPA[new_hdl].g_j);
   pnga_mask_sync(local_sync_begin,local_sync_end);
-  pnga_copy_patch(p_trans,SPA[hdl].g_data,&lo,&hi,SPA[new_hdl].g_data,&lo,&hi);
-  {
-    Integer tlo[3],thi[3];
-    pnga_distribution(SPA[new_hdl].g_blk,me,tlo,thi);
-    pnga_mask_sync(local_sync_begin,local_sync_end);
-    pnga_copy_patch(p_trans,SPA[hdl].g_blk,tlo,thi,SPA[new_hdl].g_blk,tlo,thi);
-  }
+  pnga_copy(SPA[hdl].g_data,SPA[new_hdl].g_data);
+  pnga_mask_sync(local_sync_begin,local_sync_end);
+  pnga_copy(SPA[hdl].g_blk,SPA[new_hdl].g_blk);
   /* copy remaining data structures */
   SPA[new_hdl].ilo = SPA[hdl].ilo;
   SPA[new_hdl].ihi = SPA[hdl].ihi;
-- 
2.43.0


From cc6ca010dbdd78c38124bf42f232eda2abdac4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 075/126] fix: sparse matrix products fail on processes without
 product blocks

---
 global/src/sparse.array.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 0e11f50..b4fa7a9 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -2817,26 +2817,31 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
   }
   /* organize row block into column blocks in CSR format */
   {
-    int *ti, *tj;
-    int64_t *lti, *ltj;
-    void *tdata;
+    int *ti = NULL, *tj = NULL;
+    int64_t *lti = NULL, *ltj = NULL;
+    void *tdata = NULL;
     Integer tlo, thi, tld;
     char *cdata, *ctdata;
-    /* Get pointers to global arrays */
+    /* Get pointers to global arrays. Processes without any blocks hold no
+     * data */
     pnga_distribution(SPA[hdl_c].g_i,me,&tlo,&thi);
-    if (longidx) {
-      pnga_access_ptr(SPA[hdl_c].g_i,&tlo,&thi,&lti,&tld);
-    } else {
-      pnga_access_ptr(SPA[hdl_c].g_i,&tlo,&thi,&ti,&tld);
+    if (nblocks > 0) {
+      if (longidx) {
+        pnga_access_ptr(SPA[hdl_c].g_i,&tlo,&thi,&lti,&tld);
+      } else {
+        pnga_access_ptr(SPA[hdl_c].g_i,&tlo,&thi,&ti,&tld);
+      }
     }
     pnga_distribution(SPA[hdl_c].g_j,me,&tlo,&thi);
-    if (longidx) {
-      pnga_access_ptr(SPA[hdl_c].g_j,&tlo,&thi,&ltj,&tld);
-    } else {
-      pnga_access_ptr(SPA[hdl_c].g_j,&tlo,&thi,&tj,&tld);
+    if (nblocks > 0) {
+      if (longidx) {
+        pnga_access_ptr(SPA[hdl_c].g_j,&tlo,&thi,&ltj,&tld);
+      } else {
+        pnga_access_ptr(SPA[hdl_c].g_j,&tlo,&thi,&tj,&tld);
+      }
     }
     pnga_distribution(SPA[hdl_c].g_data,me,&tlo,&thi);
-    pnga_access_ptr(SPA[hdl_c].g_data,&tlo,&thi,&tdata,&tld);
+    if (nblocks > 0) pnga_access_ptr(SPA[hdl_c].g_data,&tlo,&thi,&tdata,&tld);
     idx = SPA[hdl_c].idx;
     jdx = SPA[hdl_c].jdx;
     cdata = (char*)SPA[hdl_c].val;
-- 
2.43.0


From d55e808313d32361579d9238d1e2c9d4570c131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 076/126] fix: conversion of a dense to a sparse matrix fails
 on processes without data

---
 global/src/sparse.array.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index b4fa7a9..04e23cc 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3327,8 +3327,14 @@ Integer pnga_sprs_array_create_from_dense(Integer g_a, Integer idx_size,
   s_a = pnga_sprs_array_create(idim, jdim, type, idx_size);
   /* find bounding indices of locally owned block from global array */
   pnga_distribution(g_a,me,lo,hi);
-  /* get pointer to locally owned block */
-  pnga_access_ptr(g_a, lo, hi, &vptr, &ld);
+  /* get pointer to locally owned block (if there is one) */
+  vptr = NULL;
+  if (lo[0] <= hi[0] && lo[1] <= hi[1]) {
+    pnga_access_ptr(g_a, lo, hi, &vptr, &ld);
+  } else {
+    hi[0] = lo[0]-1;
+    hi[1] = lo[1]-1;
+  }
   /* add all non-zero entries from g_a to s_a. Add diagonal elements
    * to s_a even if they are zero */
   if (idx_size == 4) {
-- 
2.43.0


From 831c016fdddb19af347c3205ea75ce2a716fb734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 077/126] fix: dense copy of a sparse matrix ignores its group,
 and has a wrong distribution in the Fortran layout

---
 global/src/sparse.array.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 04e23cc..0534566 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3427,7 +3427,7 @@ Integer pnga_sprs_array_create_from_sparse(Integer s_a,
   if (trans) {
     map[me+1] = SPA[handle].ilo+1;
   } else {
-    map[me+1] = SPA[handle].ilo+1;
+    map[me] = SPA[handle].ilo+1;
   }
   plus[0] = '+';
   plus[1] = '\0';
@@ -3452,6 +3452,7 @@ Integer pnga_sprs_array_create_from_sparse(Integer s_a,
     nblock[0] = nprocs;
     nblock[1] = 1;
   }
+  pnga_set_pgroup(g_a,SPA[handle].grp);
   pnga_set_irreg_distr(g_a, map, nblock);
   if (!pnga_allocate(g_a)) {
     pnga_error("(ga_sprs_array_create_from_sparse) failed to create"
-- 
2.43.0


From 6d1e12002533f93011d8ac19233dcb0eef167d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:04 +0000
Subject: [PATCH 078/126] fix: sparse matrix block ranges are wrong for
 dimensions smaller than the number of processes

---
 global/src/sparse.array.c | 148 +++++---------------------------------
 1 file changed, 18 insertions(+), 130 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 0534566..26df245 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -223,6 +223,18 @@ void pnga_sprs_array_add_element(Integer s_a, Integer idx, Integer jdx, void *va
   memcpy((char*)SPA[hdl].val+size*nval,(char*)val,(size_t)size);
   SPA[hdl].nval++;
 }
+/**
+ * Range of (zero-based) indices in block iproc when a dimension is divided
+ * into nproc blocks. Index i belongs to block (i*nproc)/dim, so a block is
+ * empty (hi = lo-1) if there are fewer indices than blocks.
+ */
+static void sprs_block_range(Integer dim, Integer iproc, Integer nproc,
+    Integer *lo, Integer *hi)
+{
+  *lo = (dim*iproc+nproc-1)/nproc;
+  *hi = (dim*(iproc+1)+nproc-1)/nproc-1;
+}
+
 /*
 void find_lims(Integer dim, Integer proc, Integer nproc, Integer *lo, Integer *hi)
 {
@@ -616,28 +628,7 @@ logical pnga_sprs_array_assemble(Integer s_a)
   }
   /* Values have all been sorted into column blocks within the row block. Now
    * need to sort them by row. Start by evaluating lower and upper row indices */
-  SPA[hdl].ilo = (SPA[hdl].idim*me)/nproc;
-  while ((SPA[hdl].ilo*nproc)/idim < me) {
-    SPA[hdl].ilo++;
-  }
-  while ((SPA[hdl].ilo*nproc)/idim > me) {
-    SPA[hdl].ilo--;
-  }
-  if ((SPA[hdl].ilo*nproc)/idim != me) {
-    SPA[hdl].ilo++;
-  }
-  if (me < nproc-1) {
-    SPA[hdl].ihi = (SPA[hdl].idim*(me+1))/nproc;
-    while ((SPA[hdl].ihi*nproc)/idim < me+1) {
-      SPA[hdl].ihi++;
-    }
-    while ((SPA[hdl].ihi*nproc)/idim > me+1) {
-      SPA[hdl].ihi--;
-    }
-    SPA[hdl].ihi--;
-  } else {
-    SPA[hdl].ihi = SPA[hdl].idim-1;
-  }
+  sprs_block_range(idim,me,nproc,&SPA[hdl].ilo,&SPA[hdl].ihi);
 
   nrows = SPA[hdl].ihi - SPA[hdl].ilo + 1;
   /* Resize the i-index array to account for row blocks */
@@ -793,25 +784,7 @@ logical pnga_sprs_array_assemble(Integer s_a)
     pnga_distribution(SPA[hdl].g_j,me,&jbot,&jtop);
 
     /* calculate column limits for processor i */
-    jlo = (SPA[hdl].jdim*i)/nproc;
-    while ((jlo*nproc)/jdim < i) {
-      jlo++;
-    }
-    while ((jlo*nproc)/jdim > i) {
-      jlo--;
-    }
-    if (i < nproc-1) {
-      jhi = (SPA[hdl].jdim*(i+1))/nproc;
-      while ((jhi*nproc)/jdim < i+1) {
-        jhi++;
-      }
-      while ((jhi*nproc)/jdim > i+1) {
-        jhi--;
-      }
-      jhi--;
-    } else {
-      jhi = SPA[hdl].jdim-1;
-    }
+    sprs_block_range(jdim,i,nproc,&jlo,&jhi);
     /* set indices to unit based indexing */
     jlo++;
     jhi++;
@@ -894,33 +867,7 @@ void pnga_sprs_array_row_distribution(Integer s_a, Integer iproc, Integer *lo,
     Integer *hi)
 {
   Integer hdl = GA_OFFSET + s_a;
-  *lo = SPA[hdl].ilo;
-  if (iproc == pnga_pgroup_nodeid(SPA[hdl].grp)) {
-    *lo = SPA[hdl].ilo;
-    *hi = SPA[hdl].ihi;
-  } else {
-    Integer nproc = SPA[hdl].nprocs;
-    Integer idim = SPA[hdl].idim;
-    *lo = (SPA[hdl].idim*iproc)/nproc;
-    while (((*lo)*nproc)/idim < iproc) {
-      (*lo)++;
-    }
-    while (((*lo)*nproc)/idim > iproc) {
-      (*lo)--;
-    }
-    if (iproc < nproc-1) {
-      (*hi) = (idim*(iproc+1))/nproc;
-      while (((*hi)*nproc)/idim < iproc+1) {
-        (*hi)++;
-      }
-      while (((*hi)*nproc)/idim > iproc+1) {
-        (*hi)--;
-      }
-      (*hi)--;
-    } else {
-      *hi = idim-1;
-    }
-  }
+  sprs_block_range(SPA[hdl].idim,iproc,SPA[hdl].nprocs,lo,hi);
 }
 
 /**
@@ -937,27 +884,7 @@ void pnga_sprs_array_column_distribution(Integer s_a, Integer iproc, Integer *lo
     Integer *hi)
 {
   Integer hdl = GA_OFFSET + s_a;
-  Integer nproc = SPA[hdl].nprocs;
-  Integer jdim = SPA[hdl].jdim;
-  *lo = (SPA[hdl].jdim*iproc)/nproc;
-  while (((*lo)*nproc)/jdim < iproc) {
-    (*lo)++;
-  }
-  while (((*lo)*nproc)/jdim > iproc) {
-    (*lo)--;
-  }
-  if (iproc < nproc-1) {
-    (*hi) = (jdim*(iproc+1))/nproc;
-    while (((*hi)*nproc)/jdim < iproc+1) {
-      (*hi)++;
-    }
-    while (((*hi)*nproc)/jdim > iproc+1) {
-      (*hi)--;
-    }
-    (*hi)--;
-  } else {
-    *hi = jdim-1;
-  }
+  sprs_block_range(SPA[hdl].jdim,iproc,SPA[hdl].nprocs,lo,hi);
 }
 
 /**
@@ -3035,25 +2962,7 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
       pnga_distribution(SPA[hdl_c].g_j,me,&jbot,&jtop);
 
       /* calculate column limits for processor i */
-      jlo = (SPA[hdl_c].jdim*i)/nprocs;
-      while ((jlo*nprocs)/jdim < i) {
-        jlo++;
-      }
-      while ((jlo*nprocs)/jdim > i) {
-        jlo--;
-      }
-      if (i < nprocs-1) {
-        jhi = (SPA[hdl_c].jdim*(i+1))/nprocs;
-        while ((jhi*nprocs)/jdim < i+1) {
-          jhi++;
-        }
-        while ((jhi*nprocs)/jdim > i+1) {
-          jhi--;
-        }
-        jhi--;
-      } else {
-        jhi = SPA[hdl_c].jdim-1;
-      }
+      sprs_block_range(SPA[hdl_c].jdim,i,nprocs,&jlo,&jhi);
       /* set indices to fortran indexing */
       jlo++;
       jhi++;
@@ -4031,29 +3940,8 @@ Integer pnga_sprs_array_dnssprs_multiply(Integer g_a, Integer s_b, Integer trans
   map = (Integer*)malloc((nprocs+1)*sizeof(Integer));
   size = (Integer*)malloc(nprocs*sizeof(Integer));
   /* Create a partition for dense C matrix */
-  ilo = (idim*me)/nprocs;
-  while ((ilo*nprocs)/idim < me) {
-    ilo++;
-  }
-  while ((ilo*nprocs)/idim > me) {
-    ilo--;
-  }
-  if ((ilo*nprocs)/idim != me) {
-    ilo++;
-  }
+  sprs_block_range(idim,me,nprocs,&ilo,&ihi);
   ilo++;
-  if (me < nprocs-1) {
-    ihi = (idim*(me+1))/nprocs;
-    while ((ihi*nprocs)/idim < me+1) {
-      ihi++;
-    }
-    while ((ihi*nprocs)/idim > me+1) {
-      ihi--;
-    }
-    ihi--;
-  } else {
-    ihi = idim-1;
-  }
   ihi++;
 
   for (i=0; i<nprocs; i++) size[i] = 0;
-- 
2.43.0


From d6198c467f8ca16ae893507574955c4c21a3cfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:04 +0000
Subject: [PATCH 079/126] fix: duplicate of a sparse matrix takes the process
 count of the default group

---
 global/src/sparse.array.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 26df245..d6d0e3c 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -2045,6 +2045,7 @@ Integer pnga_sprs_array_duplicate(Integer s_a)
   SPA[new_hdl].ilo = SPA[hdl].ilo;
   SPA[new_hdl].ihi = SPA[hdl].ihi;
   SPA[new_hdl].nblocks = SPA[hdl].nblocks;
+  SPA[new_hdl].nprocs = SPA[hdl].nprocs;
   SPA[new_hdl].nval = SPA[hdl].nval;
   SPA[new_hdl].maxval = SPA[hdl].maxval;
   SPA[new_hdl].max_nnz = SPA[hdl].max_nnz;
-- 
2.43.0


From a4869d7c723a9e17ff674d4aba7ef97e2feebbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 080/126] fix: sparse-dense products partition the dense result
 by the columns of the sparse matrix, and fail on empty blocks

---
 global/src/sparse.array.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index d6d0e3c..e184c5e 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3636,9 +3636,10 @@ Integer pnga_sprs_array_sprsdns_multiply(Integer s_a, Integer g_b, Integer trans
     Integer tlo_c[2], thi_c[2];
     lo_c[0] = SPA[hdl_a].ilo+1;
     hi_c[0] = SPA[hdl_a].ihi+1;
-    pnga_sprs_array_column_distribution(s_a,l,&lo_c[1],&hi_c[1]);
+    sprs_block_range(jdim,l,nprocs,&lo_c[1],&hi_c[1]);
     lo_c[1]++;
     hi_c[1]++;
+    if (lo_c[0] > hi_c[0] || lo_c[1] > hi_c[1]) continue;
     /* loop over all sub-blocks in column and row block that contribute
      * to target block */
     if (trans) {
@@ -3990,6 +3991,7 @@ Integer pnga_sprs_array_dnssprs_multiply(Integer g_a, Integer s_b, Integer trans
     pnga_sprs_array_column_distribution(s_b,l,&lo_c[1],&hi_c[1]);
     lo_c[1]++;
     hi_c[1]++;
+    if (lo_c[0] > hi_c[0] || lo_c[1] > hi_c[1]) continue;
     if (trans) {
       tlo_c[0] = lo_c[1];
       thi_c[0] = hi_c[1];
-- 
2.43.0


From a186e9d55f38a53e9eb1c154d00b88f1e37b0d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:01 +0000
Subject: [PATCH 081/126] fix: count sketch sums the row counts with the width
 of the sparse indices

---
 global/src/sketch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sketch.c b/global/src/sketch.c
index 79dd477..923a36c 100644
--- a/global/src/sketch.c
+++ b/global/src/sketch.c
@@ -127,7 +127,7 @@ Integer pnga_sprs_array_count_sketch(Integer s_a, Integer size_k,
   map = (Integer*)malloc((nprocs+1)*sizeof(Integer));
   for (i=0; i<nprocs; i++) size[i] = 0;
   size[me] = nrows;
-  if (idx_size == 4) {
+  if (sizeof(Integer) == sizeof(int)) {
     pnga_pgroup_gop(SPA[hdl].grp,C_INT,size,nprocs,"+");
   } else {
     pnga_pgroup_gop(SPA[hdl].grp,C_LONG,size,nprocs,"+");
-- 
2.43.0


From a141dbbc7be99ab6382dda4cead5380e23721f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:01 +0000
Subject: [PATCH 082/126] fix: count sketch accesses column blocks by list
 position instead of block index

---
 global/src/sketch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/sketch.c b/global/src/sketch.c
index 923a36c..ad08826 100644
--- a/global/src/sketch.c
+++ b/global/src/sketch.c
@@ -253,7 +253,7 @@ Integer pnga_sprs_array_count_sketch(Integer s_a, Integer size_k,
           if (idx_size == 4) {
             int *iptr;
             int *jptr;
-            pnga_sprs_array_access_col_block(s_a,n,&iptr,&jptr,&vptr);
+            pnga_sprs_array_access_col_block(s_a,nblk,&iptr,&jptr,&vptr);
             Integer idx = irow;
             Integer kcols = iptr[idx+1]-iptr[idx];
             for (k = 0; k<kcols; k++) {
@@ -294,7 +294,7 @@ Integer pnga_sprs_array_count_sketch(Integer s_a, Integer size_k,
           } else {
             int64_t *iptr;
             int64_t *jptr;
-            pnga_sprs_array_access_col_block(s_a,n,&iptr,&jptr,&vptr);
+            pnga_sprs_array_access_col_block(s_a,nblk,&iptr,&jptr,&vptr);
             Integer idx = irow;
             Integer kcols = iptr[idx+1]-iptr[idx];
             for (k = 0; k<kcols; k++) {
-- 
2.43.0


From eca57fc6544879f5bbaea63a507aa0f75a287e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:40 +0000
Subject: [PATCH 083/126] fix: dense copy of a rectangular sparse matrix has
 transposed dimensions

---
 global/src/sparse.array.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index e184c5e..658a712 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3352,8 +3352,13 @@ Integer pnga_sprs_array_create_from_sparse(Integer s_a,
     map[nprocs] = 1;
   }
   g_a = pnga_create_handle();
-  dims[0] = SPA[handle].idim;
-  dims[1] = SPA[handle].jdim;
+  if (trans) {
+    dims[0] = SPA[handle].jdim;
+    dims[1] = SPA[handle].idim;
+  } else {
+    dims[0] = SPA[handle].idim;
+    dims[1] = SPA[handle].jdim;
+  }
   pnga_set_data(g_a,two,dims,SPA[handle].type);
   if (trans) {
     nblock[0] = 1;
@@ -3376,7 +3381,7 @@ Integer pnga_sprs_array_create_from_sparse(Integer s_a,
   ihi = SPA[handle].ihi;
   if (trans) {
     lo[0] = 1;
-    hi[0] = SPA[handle].idim;
+    hi[0] = SPA[handle].jdim;
     lo[1] = ilo+1;
     hi[1] = ihi+1;
   } else {
-- 
2.43.0


From bfd17e344796d5b6c5c1c450f87bd2e62ec6ba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 084/126] fix: MA stack/heap inquiries are garbage once the
 other region has overgrown the partition

---
 ma/ma.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/ma/ma.c b/ma/ma.c
index 03f214e..21a69a1 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -2766,7 +2766,7 @@ public Integer MA_inquire_heap(Integer datatype)
 
 public Integer MA_inquire_heap_check_stack(Integer datatype)
 {
-    size_t    gap_length;    /* # of bytes between heap and partition */
+    Pointer    gap_end;    /* end of space between heap and partition */
     Integer    nelem_gap;    /* max elements containable in gap */
     Integer    nelem_frag;    /* max elements containable in any frag */
 
@@ -2806,9 +2806,9 @@ public Integer MA_inquire_heap_check_stack(Integer datatype)
      */
 
     /* try space between heap and partition or heap and stack */
-    gap_length = min((size_t)(ma_partition - ma_hp), (size_t)(ma_sp - ma_hp));
-    if (gap_length > 0)
-        nelem_gap = ma_nelem(ma_hp, (ulongi)gap_length, datatype);
+    gap_end = min(ma_partition, ma_sp);
+    if (gap_end > ma_hp)
+        nelem_gap = ma_nelem(ma_hp, (ulongi)(gap_end - ma_hp), datatype);
     else
         nelem_gap = 0;
 
@@ -2945,8 +2945,7 @@ public Integer MA_inquire_stack(Integer datatype)
 
     /* try space between partition and stack */
     gap_length = (size_t)(ma_sp - ma_partition);
-    /*if (ma_sp > ma_partition)*/
-    if (gap_length > 0)
+    if (ma_sp > ma_partition)
         nelem_gap = ma_nelem(ma_partition, (ulongi)gap_length, datatype);
     else
         nelem_gap = 0;
@@ -2973,7 +2972,7 @@ public Integer MA_inquire_stack(Integer datatype)
 
 public Integer MA_inquire_stack_check_heap(Integer datatype)
 {
-    size_t    gap_length;    /* # of bytes between partition and stack */
+    Pointer    gap_start;    /* start of space between partition and stack */
     Integer    nelem_gap;    /* max elements containable in gap */
 
 #ifdef STATS
@@ -3012,9 +3011,9 @@ public Integer MA_inquire_stack_check_heap(Integer datatype)
      */
 
     /* try space between partition and stack or heap and stack */
-    gap_length = min((size_t)(ma_sp - ma_partition), (size_t)(ma_sp - ma_hp));
-    if (gap_length > 0)
-        nelem_gap = ma_nelem(ma_partition, (ulongi)gap_length, datatype);
+    gap_start = max(ma_partition, ma_hp);
+    if (ma_sp > gap_start)
+        nelem_gap = ma_nelem(gap_start, (ulongi)(ma_sp - gap_start), datatype);
     else
         nelem_gap = 0;
 
-- 
2.43.0


From 3e17dd7946e6d7c9eab86aca11f594e5b6caf3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 085/126] fix: MA grants requests whose size in bytes overflows

---
 ma/ma.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ma/ma.c b/ma/ma.c
index 21a69a1..6a1ef1c 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -2003,6 +2003,16 @@ public Boolean MA_allocate_heap(
     /* convert datatype to internal (index-suitable) value */
     datatype = mt_import(datatype);
 
+    /* no block can be larger than the segment */
+    if ((ulongi)nelem > (ulongi)(ma_eos - ma_segment) / ma_sizeof[datatype])
+    {
+        (void)sprintf(ma_ebuf,
+            "block '%s', not enough space to allocate %lu elements",
+            name, (ulongi)nelem);
+        ma_error(EL_Nonfatal, ET_External, "MA_allocate_heap", ma_ebuf);
+        return MA_FALSE;
+    }
+
     /*
      * attempt to allocate space
      */
@@ -3321,6 +3331,16 @@ public Boolean MA_push_stack(
         ad = (AD *)new_sp;
     }
 
+    /* no block can be larger than the segment */
+    if ((ulongi)nelem > (ulongi)(ma_eos - ma_segment) / ma_sizeof[datatype])
+    {
+        (void)sprintf(ma_ebuf,
+            "block '%s', not enough space to allocate %lu elements",
+            name, (ulongi)nelem);
+        ma_error(EL_Nonfatal, ET_External, "MA_push_stack", ma_ebuf);
+        return MA_FALSE;
+    }
+
     /*
      * space has been allocated
      */
-- 
2.43.0


From 6cd2b991d7f8cccd86d252066aae30eea32d99d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 086/126] fix: MA_free_heap_piece miscomputes the kept block
 after an alignment change

---
 ma/ma.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ma/ma.c b/ma/ma.c
index 6a1ef1c..5d9490a 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -2207,8 +2207,7 @@ public Boolean MA_free_heap_piece(
 {
     AD        *ad;        /* AD for memhandle */
     AD        *ad_reclaim;    /* AD for data returned */
-    AR        ar;        /* AR for data kept */
-    Pointer    client_space;    /* location of client_space */
+    Integer    nelem_keep;    /* # of elements kept */
     ulongi    nbytes;        /* length of block for data kept */
 
 #ifdef STATS
@@ -2243,12 +2242,12 @@ public Boolean MA_free_heap_piece(
     (void)printf("MA: freeing %ld elements of '%s'\n",
             (size_t)nelem, ad->name);
 
-    /* set AR for data to keep */
-    ar.datatype = ad->datatype;
-    ar.nelem = ad->nelem - nelem;
-
-    /* perform trial allocation to determine size */
-    balloc_after(&ar, (Pointer)ad, &client_space, &nbytes);
+    /* determine size of block for data to keep; it does not move */
+    nelem_keep = ad->nelem - nelem;
+    nbytes = (ulongi)mai_round(
+        (size_t)(ad->client_space - (Pointer)ad)
+        + (size_t)nelem_keep * ma_sizeof[ad->datatype]
+        + sizeof(Guard), (ulongi)ALIGNMENT);
 
     if (nbytes < ad->nbytes)
     {
@@ -2267,7 +2266,7 @@ public Boolean MA_free_heap_piece(
     }
 
     /* update surviving block */
-    ad->nelem = ar.nelem;
+    ad->nelem = nelem_keep;
     ad->checksum = checksum(ad);
 
     /* set the guards */
-- 
2.43.0


From 83b12c91aa6eb22e1cba36dfd4aa3fae3bf3c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 087/126] fix: MA_init accepts sizes whose number of bytes
 overflows

---
 ma/ma.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ma/ma.c b/ma/ma.c
index 5d9490a..375f366 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -2457,6 +2457,7 @@ public Boolean MA_init(
     ulongi    heap_bytes;    /* # of bytes for heap */
     ulongi    stack_bytes;    /* # of bytes for stack */
     ulongi    total_bytes;    /* total # of bytes */
+    ulongi    max_nelem;    /* most elements whose size can be computed */
 
 #ifdef STATS
     ma_stats.calls[(int)FID_MA_init]++;
@@ -2492,6 +2493,18 @@ public Boolean MA_init(
     /* convert datatype to internal (index-suitable) value */
     datatype = mt_import(datatype);
 
+    /* verify that the segment size can be represented */
+    max_nelem = ((~(ulongi)0) >> 2) / ma_sizeof[datatype];
+    if ((nominal_heap > 0 && (ulongi)nominal_heap > max_nelem) ||
+        (nominal_stack > 0 && (ulongi)nominal_stack > max_nelem))
+    {
+        (void)sprintf(ma_ebuf,
+            "could not allocate %ld stack and %ld heap elements",
+            (long)nominal_stack, (long)nominal_heap);
+        ma_error(EL_Nonfatal, ET_External, "MA_init", ma_ebuf);
+        return MA_FALSE;
+    }
+
     /* compute # of bytes in heap */
     if (nominal_heap < 0)
     {
-- 
2.43.0


From f210e90a19899f8ac43135dd1ba81437b41135ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 088/126] fix: MA_inquire_heap_no_partition ignores free blocks
 beyond the partition

---
 ma/ma.c | 45 +++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/ma/ma.c b/ma/ma.c
index 375f366..89ba855 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -176,7 +176,7 @@ private void list_insert_ordered(AD *ad, AD **list, Boolean (*pred)(AD *, AD *))
 private Boolean list_member(AD *ad, AD *list);
 private int list_print(AD *list, char *block_type, int index_base);
 private void list_verify(AD *list, char *block_type, char *preamble, int *blocks, int *bad_blocks, int *bad_checksums, int *bad_lguards, int *bad_rguards);
-private Integer ma_max_heap_frag_nelem(Integer datatype, Integer min_nelem);
+private Integer ma_max_heap_frag_nelem(Integer datatype, Integer min_nelem, Pointer end);
 private Integer ma_nelem(Pointer address, ulongi length, Integer datatype);
 private void ma_preinitialize(char *caller);
 private Boolean mh2ad(Integer memhandle, AD **adout, BlockLocation location, char *caller);
@@ -1469,9 +1469,10 @@ private void list_verify(list, block_type, preamble, blocks,
  */
 /* ------------------------------------------------------------------------- */
 
-private Integer ma_max_heap_frag_nelem(datatype, min_nelem)
+private Integer ma_max_heap_frag_nelem(datatype, min_nelem, end)
     Integer    datatype;    /* of elements */
     Integer    min_nelem;    /* for fragment to be considered */
+    Pointer    end;        /* of the region to be considered */
 {
     ulongi    min_bytes;    /* for fragment to be considered */
     AD        *ad;        /* traversal pointer */
@@ -1489,20 +1490,20 @@ private Integer ma_max_heap_frag_nelem(datatype, min_nelem)
         /*
          * There are 3 cases to consider:
          *
-         * (a) fragment is outside heap region
-         * (b) fragment straddles partition between heap and stack regions
-         * (c) fragment is inside heap region
+         * (a) fragment is outside the region
+         * (b) fragment straddles end of the region
+         * (c) fragment is inside the region
          */
 
-        if ((Pointer)ad >= ma_partition)
+        if ((Pointer)ad >= end)
         {
             /* case (a): reject */
             continue;
         }
-        else if (((Pointer)ad + ad->nbytes) >= ma_partition)
+        else if (((Pointer)ad + ad->nbytes) >= end)
         {
-            /* case (b): truncate fragment at partition */
-            nbytes = (ulongi)(ma_partition - (Pointer)ad);
+            /* case (b): truncate fragment at end of the region */
+            nbytes = (ulongi)(end - (Pointer)ad);
         }
         else
         {
@@ -2764,7 +2765,7 @@ public Integer MA_inquire_heap(Integer datatype)
         nelem_gap = 0;
 
     /* try heap fragments */
-    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap);
+    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap, ma_partition);
 
     /* success */
     return max(nelem_gap, nelem_frag);
@@ -2835,7 +2836,7 @@ public Integer MA_inquire_heap_check_stack(Integer datatype)
         nelem_gap = 0;
 
     /* try heap fragments */
-    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap);
+    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap, ma_partition);
 
     /* success */
     return max(nelem_gap, nelem_frag);
@@ -2906,7 +2907,7 @@ public Integer MA_inquire_heap_no_partition(Integer datatype)
         nelem_gap = 0;
 
     /* try heap fragments */
-    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap);
+    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap, ma_eos);
 
     /* success */
     return max(nelem_gap, nelem_frag);
@@ -3319,6 +3320,16 @@ public Boolean MA_push_stack(
     /* convert datatype to internal (index-suitable) value */
     datatype = mt_import(datatype);
 
+    /* no block can be larger than the segment */
+    if ((ulongi)nelem > (ulongi)(ma_eos - ma_segment) / ma_sizeof[datatype])
+    {
+        (void)sprintf(ma_ebuf,
+            "block '%s', not enough space to allocate %lu elements",
+            name, (ulongi)nelem);
+        ma_error(EL_Nonfatal, ET_External, "MA_push_stack", ma_ebuf);
+        return MA_FALSE;
+    }
+
     /*
      * attempt to allocate space
      */
@@ -3343,16 +3354,6 @@ public Boolean MA_push_stack(
         ad = (AD *)new_sp;
     }
 
-    /* no block can be larger than the segment */
-    if ((ulongi)nelem > (ulongi)(ma_eos - ma_segment) / ma_sizeof[datatype])
-    {
-        (void)sprintf(ma_ebuf,
-            "block '%s', not enough space to allocate %lu elements",
-            name, (ulongi)nelem);
-        ma_error(EL_Nonfatal, ET_External, "MA_push_stack", ma_ebuf);
-        return MA_FALSE;
-    }
-
     /*
      * space has been allocated
      */
-- 
2.43.0


From ab131fe5c6c3008bbb032971bad035a0ed82101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:34 +0000
Subject: [PATCH 089/126] fix: recognise contiguous strided transfers from the
 exact strides

armci_check_contiguous divided successive strides, so a stride that is not a
multiple of the next lower one (allowed by the interface) was taken for a
contiguous block and the transfer moved the wrong bytes.
---
 comex/src-armci/armci.c | 61 +++++++++--------------------------------
 1 file changed, 13 insertions(+), 48 deletions(-)

diff --git a/comex/src-armci/armci.c b/comex/src-armci/armci.c
index 5f7d4b4..f55e35c 100644
--- a/comex/src-armci/armci.c
+++ b/comex/src-armci/armci.c
@@ -115,59 +115,24 @@ int armci_check_contiguous(int *src_stride, int *dst_stride,
     int *count, int n_stride)
 {
 #if 1
-  /* This is code from the merge between CMX and the current develop branch
-   * (2018/7/5) */
   int i;
-  int ret = 1;
-  int stridelen = 1;
-  int gap = 0;
-  int src_ld[7], dst_ld[7];
-  /**
-   * Calculate physical dimensions of buffers from stride arrays
+  int stridelen = count[0];
+  /* The data is contiguous if and only if, in every dimension that has more
+   * than one entry, consecutive entries are as far apart as the total extent
+   * of all lower dimensions. Strides need not be multiples of each other.
    */
-  src_ld[0] = src_stride[0];
-  dst_ld[0] = dst_stride[0];
-  for (i=1; i<n_stride; i++) {
-    src_ld[i] = src_stride[i]/src_stride[i-1];
-    dst_ld[i] = dst_stride[i]/dst_stride[i-1];
-  }
-  /* NOTE: The count array contains the length of the final dimension and can
-   * be used to evaluate some corner cases
-   */
-  for (i=0; i<n_stride; i++) {
-    /* check for overflow */
-    int tmp = stridelen * count[i];
-    if (stridelen != 0 && tmp / stridelen != count[i]) {
-      ret = 0;
-      break;
+  for (i=1; i<=n_stride; i++) {
+    int tmp;
+    if (count[i] != 1 &&
+        (src_stride[i-1] != stridelen || dst_stride[i-1] != stridelen)) {
+      return 0;
     }
+    /* check for overflow */
+    tmp = stridelen * count[i];
+    if (stridelen != 0 && tmp / stridelen != count[i]) return 0;
     stridelen = tmp;
-    if ((count[i] < src_ld[i] || count[i] < dst_ld[i])
-        && gap == 1) {
-      /* Data is definitely strided in memory */
-      ret = 0;
-      break;
-    } else if ((count[i] < src_ld[i] || count[i] < dst_ld[i]) &&
-        gap == 0) {
-      /* First dimension that doesn't match physical dimension */
-      gap = 1;
-    } else if (count[i] != 1 && gap == 1) {
-      /* Found a mismatch between requested block and physical dimensions
-       * indicating a possible stride in memory
-       * */
-      ret = 0;
-      break;
-    }
-  }
-  /**
-   * Everything looks good up to this point but need to verify that last
-   * dimension is 1 if a mismatch between requested block and physical
-   * array dimensions has been found previously
-   */
-  if (gap == 1 && ret == 1 && n_stride > 0) {
-    if (count[n_stride] != 1) ret = 0;
   }
-  return ret;
+  return 1;
 #else
   int i;
   int ret = 1;
-- 
2.43.0


From d36cc8d5355b1919f9d0bc4297f64067f2436afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:35 +0000
Subject: [PATCH 090/126] fix: implement comex_wait_proc in the mpi3 port

It was a failing assertion; waiting for all outstanding operations of the
group includes those to the given process.
---
 comex/src-mpi3/comex.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 11d3f0b..d436627 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -2031,9 +2031,7 @@ int comex_finalize()
 
 int comex_wait_proc(int proc, comex_group_t group)
 {
-    assert(0);
-
-    return COMEX_SUCCESS;
+    return comex_wait_all(group);
 }
 
 
-- 
2.43.0


From b5a6401d0288bba40b171ff87657ea514bd09da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 091/126] fix: keep the scaled data of non-blocking accumulates
 until completion (mpi3)

comex_nbacc, comex_nbaccs and comex_nbaccv freed the buffer MPI_Raccumulate
reads from before the request completed.
---
 comex/src-mpi3/comex.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index d436627..0f44662 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -94,6 +94,7 @@ typedef struct {
   MPI_Datatype src_type;
   MPI_Datatype dst_type;
   int active;
+  void *acc_buf; /* scaled data of an accumulate, freed on completion */
 #ifdef USE_MPI_FLUSH_LOCAL
   int remote_proc;
 #else
@@ -254,6 +255,7 @@ int _comex_init(MPI_Comm comm)
     for (i=0; i<nb_max_outstanding; i++) {
       nb_list[i] = (nb_t*)malloc(sizeof(nb_t));
       nb_list[i]->active = 0;
+      nb_list[i]->acc_buf = NULL;
     }
 #endif
 
@@ -2058,6 +2060,8 @@ int comex_wait(comex_request_t* hdl)
     printf("p[%d] comex_wait Error: handle not active\n",l_state.rank);
   }
   nb_list[*hdl]->active = 0;
+  free(nb_list[*hdl]->acc_buf);
+  nb_list[*hdl]->acc_buf = NULL;
   if (nb_list[*hdl]->use_type) {
     ierr = MPI_Type_free(&(nb_list[*hdl]->src_type));
     translate_mpi_error(ierr,"comex_wait:MPI_Type_free");
@@ -2094,6 +2098,8 @@ int comex_test(comex_request_t* hdl, int *status)
       /* operation is complete */
       *status = 0;
       nb_list[*hdl]->active = 0;
+      free(nb_list[*hdl]->acc_buf);
+      nb_list[*hdl]->acc_buf = NULL;
       if (nb_list[*hdl]->use_type) {
         ierr = MPI_Type_free(&(nb_list[*hdl]->src_type));
         translate_mpi_error(ierr,"comex_wait:MPI_Type_free");
@@ -2294,8 +2300,8 @@ int comex_nbacc(
 #endif
       req->request = request;
       req->use_type = 0;
+      req->acc_buf = buf;
       req->active = 1;
-      free(buf);
     } else if (datatype == COMEX_ACC_LNG) {
       long *buf;
       long *lsrc = (long*)src_ptr;
@@ -2318,8 +2324,8 @@ int comex_nbacc(
 #endif
       req->request = request;
       req->use_type = 0;
+      req->acc_buf = buf;
       req->active = 1;
-      free(buf);
     } else if (datatype == COMEX_ACC_FLT) {
       float *buf;
       float *fsrc = (float*)src_ptr;
@@ -2342,8 +2348,8 @@ int comex_nbacc(
 #endif
       req->request = request;
       req->use_type = 0;
+      req->acc_buf = buf;
       req->active = 1;
-      free(buf);
     } else if (datatype == COMEX_ACC_DBL) {
       double *buf;
       double *dsrc = (double*)src_ptr;
@@ -2366,8 +2372,8 @@ int comex_nbacc(
 #endif
       req->request = request;
       req->use_type = 0;
+      req->acc_buf = buf;
       req->active = 1;
-      free(buf);
     } else if (datatype == COMEX_ACC_CPL) {
       int cnum;
       float *buf;
@@ -2394,8 +2400,8 @@ int comex_nbacc(
 #endif
       req->request = request;
       req->use_type = 0;
+      req->acc_buf = buf;
       req->active = 1;
-      free(buf);
     } else if (datatype == COMEX_ACC_DCP) {
       int cnum;
       double *buf;
@@ -2422,8 +2428,8 @@ int comex_nbacc(
 #endif
       req->request = request;
       req->use_type = 0;
+      req->acc_buf = buf;
       req->active = 1;
-      free(buf);
     } else {
       assert(0);
     }
@@ -2736,7 +2742,7 @@ int comex_nbaccs(
     req->remote_proc = lproc;
     req->win = reg_win->win;
     req->active = 1;
-    free(packbuf);
+    req->acc_buf = packbuf;
 
     return COMEX_SUCCESS;
 #else
@@ -2958,7 +2964,7 @@ int comex_nbaccv(
     req->remote_proc = lproc;
     req->win = reg_win->win;
     req->active = 1;
-    free(src_ptr);
+    req->acc_buf = src_ptr;
     return COMEX_SUCCESS;
 #else
     return comex_accv(datatype, scale, iov, iov_len, proc, group);
-- 
2.43.0


From 60a4e2e049da779a114b9f771e65640b5f7e41c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:29 +0000
Subject: [PATCH 092/126] fix: accumulate every element of a vector segment in
 the mpi3 port

create_vector_buf_and_dtypes took each segment of the vector descriptor for a
single element.
---
 comex/src-mpi3/comex.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 0f44662..0a364b4 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -1601,6 +1601,36 @@ void* create_vector_buf_and_dtypes(void *dst_ptr,
   MPI_Aint *displacements;
   MPI_Datatype *types;
   MPI_Aint displ;
+  /* the code below moves one element per segment, so split segments with
+   * more than one element */
+  for (i=0; i<iov_len; i++) {
+    if (iov[i].bytes != comex_size) {
+      int k, n;
+      comex_giov_t *elem_iov;
+      elem_iov = (comex_giov_t*)malloc(iov_len*sizeof(comex_giov_t));
+      for (i=0; i<iov_len; i++) {
+        n = iov[i].bytes/comex_size;
+        elem_iov[i].bytes = comex_size;
+        elem_iov[i].count = n*iov[i].count;
+        elem_iov[i].src = (void**)malloc(elem_iov[i].count*sizeof(void*));
+        elem_iov[i].dst = (void**)malloc(elem_iov[i].count*sizeof(void*));
+        for (j=0; j<iov[i].count; j++) {
+          for (k=0; k<n; k++) {
+            elem_iov[i].src[j*n+k] = (char*)iov[i].src[j]+k*comex_size;
+            elem_iov[i].dst[j*n+k] = (char*)iov[i].dst[j]+k*comex_size;
+          }
+        }
+      }
+      src_buf = create_vector_buf_and_dtypes(dst_ptr, elem_iov, iov_len,
+          comex_size, scale, base_type, src_type, dst_type);
+      for (i=0; i<iov_len; i++) {
+        free(elem_iov[i].src);
+        free(elem_iov[i].dst);
+      }
+      free(elem_iov);
+      return src_buf;
+    }
+  }
   MPI_Type_size(base_type,&size);
   /* find total number of elements */
   nelems = 0;
-- 
2.43.0


From 4754cab9bf2c255eca0635f768a5fe33e1c7ede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 093/126] fix: translate group ranks in the mpi3 port

put, get, accumulate and read-modify-write used the process argument as a rank
in the world group whatever group was given.
---
 comex/src-mpi3/comex.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 0a364b4..50b79f6 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -370,6 +370,7 @@ int comex_put(
     MPI_Request request;
     MPI_Status status;
 #endif
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, dst, 0);
     ptr = reg_win->buf;
     displ = (MPI_Aint)(dst) - (MPI_Aint)(ptr);
@@ -486,6 +487,7 @@ int comex_get(
     MPI_Request request;
     MPI_Status status;
 #endif
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, src, 0);
     ptr = reg_win->buf;
     displ = (MPI_Aint)(src) - (MPI_Aint)(ptr);
@@ -550,6 +552,7 @@ int comex_acc(
     MPI_Status status;
 #endif
     MPI_Datatype mpi_type;
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, dst, 0);
     ptr = reg_win->buf;
     displ = (MPI_Aint)(dst) - (MPI_Aint)(ptr);
@@ -785,6 +788,7 @@ int comex_puts(
     if (stride_levels == 0) {
       return comex_put(src_ptr, dst_ptr, count[0], proc, group);
     }
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, dst_ptr, 0);
     ptr = reg_win->buf;
     displ = (MPI_Aint)(dst_ptr) - (MPI_Aint)(ptr);
@@ -928,6 +932,7 @@ int comex_gets(
     if (stride_levels == 0) {
       return comex_get(src_ptr, dst_ptr, count[0], proc, group);
     }
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, src_ptr, 0);
     ptr = reg_win->buf;
     displ = (MPI_Aint)(src_ptr) - (MPI_Aint)(ptr);
@@ -1187,6 +1192,7 @@ int comex_accs(
       return comex_acc(datatype, scale, src_ptr,
           dst_ptr, count[0], proc, group);
     }
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, dst_ptr, 0);
     ptr = reg_win->buf;
     displ = (MPI_Aint)(dst_ptr) - (MPI_Aint)(ptr);
@@ -1440,6 +1446,7 @@ int comex_putv(
 #endif
     src_ptr = iov[0].src[0];
     dst_ptr = iov[0].dst[0];
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, dst_ptr, 0);
     ptr = reg_win->buf;
     displ = 0;
@@ -1525,6 +1532,7 @@ int comex_getv(
 #endif
     src_ptr = iov[0].src[0];
     dst_ptr = iov[0].dst[0];
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, src_ptr, 0);
     ptr = reg_win->buf;
     displ = 0;
@@ -1873,6 +1881,7 @@ int comex_accv(
     }
     reg_entry_t *reg_win;
     dst_ptr = iov[0].dst[0];
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, dst_ptr, 0);
     ptr = reg_win->buf;
     displ = 0;
@@ -2190,6 +2199,7 @@ int comex_nbput(
     nb_t *req;
     reg_entry_t *reg_win;
     MPI_Request request;
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, dst, 0);
     ptr = reg_win->buf;
     displ = (MPI_Aint)(dst) - (MPI_Aint)(ptr);
@@ -2241,6 +2251,7 @@ int comex_nbget(
     nb_t *req;
     reg_entry_t *reg_win;
     MPI_Request request;
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, src, 0);
     ptr = reg_win->buf;
     displ = (MPI_Aint)(src) - (MPI_Aint)(ptr);
@@ -2296,6 +2307,7 @@ int comex_nbacc(
     reg_entry_t *reg_win;
     MPI_Request request;
     MPI_Status status;
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, dst_ptr, 0);
     ptr = reg_win->buf;
     displ = (MPI_Aint)(dst_ptr) - (MPI_Aint)(ptr);
@@ -2496,6 +2508,7 @@ int comex_nbputs(
       return comex_puts(src, src_stride, dst, dst_stride,
           count, stride_levels, proc, group);
     }
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, dst, 0);
     ptr = reg_win->buf;
     displ = (MPI_Aint)(dst) - (MPI_Aint)(ptr);
@@ -2569,6 +2582,7 @@ int comex_nbgets(
     MPI_Request request;
     MPI_Status status;
     nb_t *req;
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, src, 0);
     ptr = reg_win->buf;
     displ = (MPI_Aint)(src) - (MPI_Aint)(ptr);
@@ -2653,6 +2667,7 @@ int comex_nbaccs(
           proc, group, hdl);
     }
     nb_t *req;
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, dst, 0);
     ptr = reg_win->buf;
     displ = (MPI_Aint)(dst) - (MPI_Aint)(ptr);
@@ -2806,6 +2821,7 @@ int comex_nbputv(
     nb_t *req;
     src_ptr = iov[0].src[0];
     dst_ptr = iov[0].dst[0];
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, dst_ptr, 0);
     ptr = reg_win->buf;
     displ = 0;
@@ -2872,6 +2888,7 @@ int comex_nbgetv(
     nb_t *req;
     src_ptr = iov[0].src[0];
     dst_ptr = iov[0].dst[0];
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, src_ptr, 0);
     ptr = reg_win->buf;
     displ = 0;
@@ -2958,6 +2975,7 @@ int comex_nbaccv(
     }
     reg_entry_t *reg_win;
     dst_ptr = iov[0].dst[0];
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, dst_ptr, 0);
     ptr = reg_win->buf;
     displ = 0;
@@ -3011,6 +3029,7 @@ int comex_rmw(
     void *ptr;
     int lproc, ierr;
     reg_entry_t *reg_win;
+    comex_group_translate_world(group, proc, &proc);
     reg_win = reg_win_find(proc, prem, 0);
     ptr = reg_win->buf;
     if (ptr == NULL) return COMEX_FAILURE;
-- 
2.43.0


From 04b4802bc30dc26c77e6a266df79e69d44189dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:42 +0000
Subject: [PATCH 094/126] fix: fence the windows of every group in the mpi3
 port

comex_fence_proc, comex_fence_all and comex_barrier flushed only the memory
allocated on the given group, so a put to memory allocated on another group
was not complete after the fence; fence_proc also flushed the wrong rank.
---
 comex/src-mpi3/comex.c  | 30 ++++++++++++++++++++++++------
 comex/src-mpi3/groups.h |  1 +
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 50b79f6..dd5a576 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -173,6 +173,8 @@ int get_local_rank_from_win(MPI_Win win, int world_rank, int *local_rank)
     comex_error("MPI_Group_translate_ranks: Failed", status);
   }
 
+  MPI_Group_free(&group);
+
   return COMEX_SUCCESS;
 }
 
@@ -1936,9 +1938,22 @@ int comex_accv(
 }
 
 
+/* Memory allocated on one group can be addressed through any group the target
+ * belongs to, so a fence covers the windows of all groups */
 int comex_fence_all(comex_group_t group)
 {
-    return comex_wait_all(group);
+  comex_igroup_t *igroup = NULL;
+  win_link_t *curr_win;
+  int ierr;
+  for (igroup = group_list; igroup != NULL; igroup = igroup->next) {
+    curr_win = igroup->win_list;
+    while (curr_win != NULL) {
+      ierr = MPI_Win_flush_all(curr_win->win);
+      translate_mpi_error(ierr,"comex_fence_all:MPI_Win_flush_all");
+      curr_win = curr_win->next;
+    }
+  }
+  return COMEX_SUCCESS;
 }
 
 
@@ -1946,13 +1961,16 @@ int comex_fence_proc(int proc, comex_group_t group)
 {
   comex_igroup_t *igroup = NULL;
   win_link_t *curr_win;
-  int ierr;
-  igroup = comex_get_igroup_from_group(group);
-  if (igroup != NULL) {
+  int ierr, lproc;
+  comex_group_translate_world(group, proc, &proc);
+  for (igroup = group_list; igroup != NULL; igroup = igroup->next) {
     curr_win = igroup->win_list;
     while (curr_win != NULL) {
-      ierr = MPI_Win_flush(proc, curr_win->win);
-      translate_mpi_error(ierr,"comex_fence_proc:MPI_Win_flush");
+      get_local_rank_from_win(curr_win->win, proc, &lproc);
+      if (lproc != MPI_UNDEFINED) {
+        ierr = MPI_Win_flush(lproc, curr_win->win);
+        translate_mpi_error(ierr,"comex_fence_proc:MPI_Win_flush");
+      }
       curr_win = curr_win->next;
     }
   }
diff --git a/comex/src-mpi3/groups.h b/comex/src-mpi3/groups.h
index 1bdf296..96614ca 100644
--- a/comex/src-mpi3/groups.h
+++ b/comex/src-mpi3/groups.h
@@ -26,6 +26,7 @@ typedef struct group_link {
     win_link_t *win_list;
 } comex_igroup_t;
 
+extern comex_igroup_t *group_list;
 extern void comex_group_init();
 extern void comex_group_finalize();
 extern comex_igroup_t* comex_get_igroup_from_group(comex_group_t group);
-- 
2.43.0


From a73306a2e8b0e511f549323d2e87f47ca252e623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:28 +0000
Subject: [PATCH 095/126] fix: check the patch of one-sided operations on
 block-cyclic and tiled arrays

---
 global/src/iterator.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index 7be41be..e006b1e 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -206,6 +206,13 @@ void gai_iterator_init(Integer g_a, Integer lo[], Integer hi[],
   int grp = GA[handle].p_handle;
   int nproc = pnga_pgroup_nnodes(grp);
   Integer i;
+  /* pnga_locate_region checks the patch for regular distributions */
+  if (GA[handle].distr_type != REGULAR) {
+    for (i=0; i<ndim; i++) {
+      if (lo[i] < 1 || hi[i] > GA[handle].dims[i] || lo[i] > hi[i])
+        ga_RegionError(pnga_ndim(g_a), lo, hi, g_a);
+    }
+  }
   hdl->g_a = g_a;
   hdl->count = 0;
   hdl->oversize = 0;
-- 
2.43.0


From 239e1a7232a16cf8f0ca51f7caee656032c4b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:29 +0000
Subject: [PATCH 096/126] fix: check the handle in strided transfers and get
 before using it

---
 global/src/onesided.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index e3617bb..a66e639 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1152,7 +1152,10 @@ void pnga_get(Integer g_a, Integer *lo, Integer *hi,
               void *buf, Integer *ld)
 {
   Integer handle = GA_OFFSET + g_a;
-  enum property_type ga_property = GA[handle].property;
+  enum property_type ga_property;
+
+  ga_check_handleM(g_a, "nga_get");
+  ga_property = GA[handle].property;
 
   if (ga_property != READ_CACHE) /* if array is not read only */
   {
@@ -4233,6 +4236,7 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
   int i, proc, ndim;
   _iterator_hdl it_hdl;
 
+  ga_check_handleM(g_a, "nga_strided_put");
   size = GA[handle].elemsize;
   ndim = GA[handle].ndim;
   nproc = pnga_nnodes();
@@ -4310,6 +4314,7 @@ void pnga_strided_get(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
   int count[2*MAXDIM], stride_rem[2*MAXDIM], stride_loc[2*MAXDIM];
   _iterator_hdl it_hdl;
 
+  ga_check_handleM(g_a, "nga_strided_get");
   size = GA[handle].elemsize;
   ndim = GA[handle].ndim;
   nproc = pnga_nnodes();
@@ -4389,6 +4394,7 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
   int count[2*MAXDIM], stride_rem[2*MAXDIM], stride_loc[2*MAXDIM];
   _iterator_hdl it_hdl;
 
+  ga_check_handleM(g_a, "nga_strided_acc");
   size = GA[handle].elemsize;
   ndim = GA[handle].ndim;
   type = GA[handle].type;
-- 
2.43.0


From 180d356efd1444c1b3394fe56aa0f8ba0bd7a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:29 +0000
Subject: [PATCH 097/126] fix: transpose: check that the dimensions match

---
 global/src/global.nalg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/global.nalg.c b/global/src/global.nalg.c
index c0e49af..5efefca 100644
--- a/global/src/global.nalg.c
+++ b/global/src/global.nalg.c
@@ -974,6 +974,8 @@ _iterator_hdl hdl;
     pnga_inquire(g_b, &btype, &bndim, bdims);
 
     if(bndim != 2 || andim != 2) pnga_error("dimension must be 2",0);
+    if(adims[0] != bdims[1] || adims[1] != bdims[0])
+        pnga_error("array dimensions do not match ", 0L);
     if(atype != btype ) pnga_error("array type mismatch ", 0L);
 
 #if 1
-- 
2.43.0


From f9ae32f9d4baf1a315054f3d245c4ae68f2e321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:29 +0000
Subject: [PATCH 098/126] fix: copy and add: check handles before using them

---
 global/src/global.nalg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/global/src/global.nalg.c b/global/src/global.nalg.c
index 5efefca..6fd077a 100644
--- a/global/src/global.nalg.c
+++ b/global/src/global.nalg.c
@@ -197,6 +197,8 @@ _iterator_hdl hdl;
    Integer _hi[MAXDIM];
    local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
    _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
+   ga_check_handleM(g_a, "ga_copy");
+   ga_check_handleM(g_b, "ga_copy");
    a_grp = pnga_get_pgroup(g_a);
    b_grp = pnga_get_pgroup(g_b);
    me_a = pnga_pgroup_nodeid(a_grp);
@@ -760,6 +762,9 @@ int local_sync_begin,local_sync_end;
    local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
    _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
 
+   ga_check_handleM(g_a, "ga_add");
+   ga_check_handleM(g_b, "ga_add");
+   ga_check_handleM(g_c, "ga_add");
    a_grp = pnga_get_pgroup(g_a);
    b_grp = pnga_get_pgroup(g_b);
    c_grp = pnga_get_pgroup(g_c);
-- 
2.43.0


From c534191b4a6a8dd7086f3700999820cd9ae92580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:29 +0000
Subject: [PATCH 099/126] fix: symmetrize: check the handle before using it

---
 global/src/ga_symmetr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/ga_symmetr.c b/global/src/ga_symmetr.c
index 609ebf7..2bf8ec0 100644
--- a/global/src/ga_symmetr.c
+++ b/global/src/ga_symmetr.c
@@ -72,10 +72,10 @@ void pnga_symmetrize(Integer g_a) {
   if(local_sync_begin)pnga_sync();
 
   
-  num_blocks_a = pnga_total_blocks(g_a);
-
   pnga_inquire(g_a, &type, &ndim, dims);
 
+  num_blocks_a = pnga_total_blocks(g_a);
+
   if (type != C_DBL)
     pnga_error("ga_symmetrize: only implemented for double precision",0);
 
-- 
2.43.0


From a32c996dfdf4f55f74f69bc3e8a04a9835b8a3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:30 +0000
Subject: [PATCH 100/126] fix: destroy and deallocate: check the range of the
 handle before using it

---
 global/src/base.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 3fed3f4..13d0e05 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3981,17 +3981,17 @@ int local_sync_begin,local_sync_end;
 
     local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
     _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
+    GAstat.numdes ++; /*regardless of array status we count this call */
+    /* fails if handle is out of range or array not active */
+    if(ga_handle < 0 || ga_handle >= _max_global_array){
+       return FALSE;
+    }
     grp_id = (Integer)GA[ga_handle].p_handle;
     if(local_sync_begin)pnga_pgroup_sync(grp_id);
 
     if (grp_id > 0) grp_me = PGRP_LIST[grp_id].map_proc_list[GAme];
     else grp_me=GAme;
     
-    GAstat.numdes ++; /*regardless of array status we count this call */
-    /* fails if handle is out of range or array not active */
-    if(ga_handle < 0 || ga_handle >= _max_global_array){
-       return FALSE;
-    }
     if(GA[ga_handle].actv==0){
        return FALSE;
     }
@@ -4091,16 +4091,16 @@ logical pnga_deallocate(Integer g_a)
 
   local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
+  /* fails if handle is out of range or array not active */
+  if(ga_handle < 0 || ga_handle >= _max_global_array){
+    return FALSE;
+  }
   grp_id = (Integer)GA[ga_handle].p_handle;
   if(local_sync_begin)pnga_pgroup_sync(grp_id);
 
   if (grp_id > 0) grp_me = PGRP_LIST[grp_id].map_proc_list[GAme];
   else grp_me=GAme;
 
-  /* fails if handle is out of range or array not active */
-  if(ga_handle < 0 || ga_handle >= _max_global_array){
-    return FALSE;
-  }
   if(GA[ga_handle].actv==0){
     return FALSE;
   }
-- 
2.43.0


From 91cfd27c0e6c220a556860890957edf5dcc0c127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:30 +0000
Subject: [PATCH 101/126] fix: check the handle in is_mirrored, get_pgroup,
 set/unset_property and update_ghosts

---
 global/src/base.c   | 9 ++++++++-
 global/src/ghosts.c | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/global/src/base.c b/global/src/base.c
index 13d0e05..e085b32 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -710,7 +710,10 @@ logical pnga_is_mirrored(Integer g_a)
 {
   Integer ret = FALSE;
   Integer handle = GA_OFFSET + g_a;
-  Integer p_handle = (Integer)GA[handle].p_handle;
+  Integer p_handle;
+  if (handle < 0 || handle >= _max_global_array)
+    pnga_error("ga_is_mirrored: INVALID ARRAY HANDLE", g_a);
+  p_handle = (Integer)GA[handle].p_handle;
   if (p_handle >= 0) {
      if (PGRP_LIST[p_handle].mirrored) ret = TRUE;
   }
@@ -1668,6 +1671,8 @@ void pnga_set_pgroup(Integer g_a, Integer p_handle)
 Integer pnga_get_pgroup(Integer g_a)
 {
     Integer ga_handle = g_a + GA_OFFSET;
+    if (ga_handle < 0 || ga_handle >= _max_global_array)
+      pnga_error("ga_get_pgroup: INVALID ARRAY HANDLE", g_a);
     return (Integer)GA[ga_handle].p_handle;
 }
 
@@ -2066,6 +2071,7 @@ void pnga_set_restricted_range(Integer g_a, Integer lo_proc, Integer hi_proc)
 void pnga_set_property(Integer g_a, char* property) {
   Integer ga_handle = g_a + GA_OFFSET;
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous sync masking*/
+  ga_check_handleM(g_a, "ga_set_property");
   pnga_pgroup_sync(GA[ga_handle].p_handle);
   /* Check to see if property conflicts with properties already set on the
    * global array. This check may need more refinement as additional properties
@@ -2333,6 +2339,7 @@ void pnga_set_memory_dev(Integer g_a, char *device) {
 #endif
 void pnga_unset_property(Integer g_a) {
   Integer ga_handle = g_a + GA_OFFSET;
+  ga_check_handleM(g_a, "ga_unset_property");
   if (GA[ga_handle].property == READ_ONLY) {
     /* TODO: Copy global array to original configuration */
     int i, d, ndim, btot, chk;
diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 634bc9a..517f500 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -3541,6 +3541,7 @@ void pnga_update_ghosts(Integer g_a)
 
    local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
    _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
+   ga_check_handleM(g_a, "ga_update_ghosts");
    if(local_sync_begin)pnga_pgroup_sync(GA[handle].p_handle);
 
    if (!pnga_update4_ghosts(g_a))
-- 
2.43.0


From 983a333230f1fee4aa70995299b2b9d8abd95563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:30 +0000
Subject: [PATCH 102/126] fix: matmul_patch: check handles before using them

---
 global/src/matmul.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/global/src/matmul.c b/global/src/matmul.c
index 5a19435..d9b8fde 100644
--- a/global/src/matmul.c
+++ b/global/src/matmul.c
@@ -2060,6 +2060,10 @@ BlasInt idim_t, jdim_t, kdim_t, adim_t, bdim_t, cdim_t;
    _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
    if(local_sync_begin)pnga_sync();
 
+   pnga_check_handle(g_a, "nga_matmul_patch");
+   pnga_check_handle(g_b, "nga_matmul_patch");
+   pnga_check_handle(g_c, "nga_matmul_patch");
+
    if (pnga_total_blocks(g_a) > 0 || pnga_total_blocks(g_b) > 0 ||
        pnga_total_blocks(g_c) > 0) {
      pnga_matmul_basic(transa, transb, alpha, beta, g_a, alo, ahi,
-- 
2.43.0


From a670413ff425f1f8bfdec9000b99f5c8b7d5a4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:30 +0000
Subject: [PATCH 103/126] fix: zero_diagonal: require a two-dimensional array

---
 global/src/matrix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index 6f2f80d..e616ea2 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -2295,6 +2295,8 @@ void pnga_zero_diagonal(Integer g_a)
   /*dim1 = adims[0];*/
   /*dim2 = adims[1];*/
   type = atype;
+  if (andim != 2) 
+    pnga_error("Dimension must be 2 for zero diagonal operation",andim);
 
 #if 1
   pnga_local_iterator_init(g_a, &hdl);
-- 
2.43.0


From ecd8a7a37f40b70bc7b3eaf917bf8340a94e90ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:30 +0000
Subject: [PATCH 104/126] fix: GA_Set_data: check the number of dimensions
 before copying them

---
 global/src/capi.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/global/src/capi.c b/global/src/capi.c
index 3f19c4b..f5311ed 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -548,6 +548,7 @@ void GA_Set_data(int g_a, int ndim, int dims[], int type)
 {
     Integer aa, nndim, ttype;
     Integer _ga_dims[MAXDIM];
+    if(ndim>MAXDIM) pnga_error("unsupported number of dimensions",ndim);
     COPYC2F(dims,_ga_dims, ndim);
     aa = (Integer)g_a;
     nndim = (Integer)ndim;
@@ -559,6 +560,7 @@ void GA_Set_data64(int g_a, int ndim, int64_t dims[], int type)
 {
     Integer aa, nndim, ttype;
     Integer _ga_dims[MAXDIM];
+    if(ndim>MAXDIM) pnga_error("unsupported number of dimensions",ndim);
     COPYC2F(dims,_ga_dims, ndim);
     aa = (Integer)g_a;
     nndim = (Integer)ndim;
@@ -570,6 +572,7 @@ void NGA_Set_data(int g_a, int ndim, int dims[], int type)
 {
     Integer aa, nndim, ttype;
     Integer _ga_dims[MAXDIM];
+    if(ndim>MAXDIM) pnga_error("unsupported number of dimensions",ndim);
     COPYC2F(dims,_ga_dims, ndim);
     aa = (Integer)g_a;
     nndim = (Integer)ndim;
@@ -581,6 +584,7 @@ void NGA_Set_data64(int g_a, int ndim, int64_t dims[], int type)
 {
     Integer aa, nndim, ttype;
     Integer _ga_dims[MAXDIM];
+    if(ndim>MAXDIM) pnga_error("unsupported number of dimensions",ndim);
     COPYC2F(dims,_ga_dims, ndim);
     aa = (Integer)g_a;
     nndim = (Integer)ndim;
-- 
2.43.0


From 5dcb16710cde4ad3bd37cc80f289c572e069d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:30 +0000
Subject: [PATCH 105/126] fix: no stack overflow when an array of more
 dimensions than expected is passed

---
 global/src/DP.c           |  4 ++--
 global/src/ga_solve_seq.c |  2 +-
 global/src/matmul.c       |  4 ++--
 global/src/matrix.c       | 48 +++++++++++++++++++--------------------
 global/src/sparse.c       | 26 ++++++++++-----------
 5 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/global/src/DP.c b/global/src/DP.c
index 41e226d..0b0cf3f 100644
--- a/global/src/DP.c
+++ b/global/src/DP.c
@@ -73,7 +73,7 @@ Integer lo[2], hi[2];
 Integer ldT;
 char transp;
 DoublePrecision *dbl_ptrA=NULL, *dbl_ptrB=NULL;
-Integer ndim, dims[2];
+Integer ndim, dims[MAXDIM];
 
    pnga_check_handle(g_a, "pnga_copy_patch_dp");
    pnga_check_handle(g_b, "pnga_copy_patch_dp");
@@ -181,7 +181,7 @@ char    transp, transp_a, transp_b;
 DoublePrecision  sum = 0.;
 DoublePrecision *dbl_ptrA;
 DoublePrecision *dbl_ptrB;
-Integer ndim, dims[2];
+Integer ndim, dims[MAXDIM];
 
    pnga_check_handle(g_a, "pnga_ddot_patch_dp");
    pnga_check_handle(g_b, "pnga_ddot_patch_dp");
diff --git a/global/src/ga_solve_seq.c b/global/src/ga_solve_seq.c
index fdc5611..7b8a598 100644
--- a/global/src/ga_solve_seq.c
+++ b/global/src/ga_solve_seq.c
@@ -492,7 +492,7 @@ void pnga_lu_solve_seq(char *trans, Integer g_a, Integer g_b) {
 #else
   Integer info=0;
 #endif
-  Integer dims[2], ndim;
+  Integer dims[MAXDIM], ndim;
   Integer lo[2], hi[2];
 
   /** check environment */
diff --git a/global/src/matmul.c b/global/src/matmul.c
index d9b8fde..e4ca89b 100644
--- a/global/src/matmul.c
+++ b/global/src/matmul.c
@@ -1299,7 +1299,7 @@ void pnga_matmul(transa, transb, alpha, beta,
      char    *transa, *transb;
 {
     DoubleComplex *a=NULL, *b, *c, *a_ar[2], *b_ar[2], *c_ar[2];
-    Integer adim1=0, adim2=0, bdim1=0, bdim2=0, cdim1=0, cdim2=0, dims[2];
+    Integer adim1=0, adim2=0, bdim1=0, bdim2=0, cdim1=0, cdim2=0, dims[MAXDIM];
     Integer atype, btype, ctype, rank, me= pnga_nodeid();
     Integer n, m, k, Ichunk, Kchunk, Jchunk;
     Integer loA[2]={0,0}, hiA[2]={0,0};
@@ -1599,7 +1599,7 @@ void pnga_matmul_mirrored(transa, transb, alpha, beta,
 #else
    DoubleComplex *a, *b, *c;
 #endif
-Integer atype, btype, ctype, adim1=0, adim2=0, bdim1=0, bdim2=0, cdim1=0, cdim2=0, dims[2], rank;
+Integer atype, btype, ctype, adim1=0, adim2=0, bdim1=0, bdim2=0, cdim1=0, cdim2=0, dims[MAXDIM], rank;
 Integer me= pnga_nodeid(), nproc;
 Integer i, ijk = 0, i0, i1, j0, j1;
 Integer ilo, ihi, idim, jlo, jhi, jdim, klo, khi, kdim;
diff --git a/global/src/matrix.c b/global/src/matrix.c
index e616ea2..775e17d 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -1468,9 +1468,9 @@ static void sgai_get_diagonal_block(Integer g_a, void *ptr, Integer g_v,
 #endif
 void pnga_get_diag(Integer g_a, Integer g_v)
 {
-  Integer vndim, vdims, dim1, dim2, vtype, atype, type;
+  Integer vndim, vdims[MAXDIM], dim1, dim2, vtype, atype, type;
   Integer me = pnga_nodeid (), i, nproc = pnga_nnodes();
-  Integer andim, adims[2];
+  Integer andim, adims[MAXDIM];
   Integer loA[2], hiA[2], ld;
   Integer num_blocks_a;
   int local_sync_begin,local_sync_end;
@@ -1488,7 +1488,7 @@ void pnga_get_diag(Integer g_a, Integer g_v)
   dim1 = adims[0];
   dim2 = adims[1];
   type = atype;
-  pnga_inquire (g_v, &vtype, &vndim, &vdims);
+  pnga_inquire (g_v, &vtype, &vndim, vdims);
 
   /* Perform some error checking */
   if (andim != 2)
@@ -1496,7 +1496,7 @@ void pnga_get_diag(Integer g_a, Integer g_v)
   if (vndim != 1)
     pnga_error("ga_get_diag: wrong dimension for g_v.", vndim);
 
-  if (vdims != GA_MIN (dim1, dim2))
+  if (vdims[0] != GA_MIN (dim1, dim2))
     pnga_error
       ("ga_get_diag: The size of the first array's diagonal is greater than the size of the second array.",
        type);
@@ -1695,9 +1695,9 @@ static void sgai_add_diagonal_block(Integer g_a, void *ptr, Integer g_v,
 #endif
 void pnga_add_diagonal(Integer g_a, Integer g_v)
 {
-  Integer vndim, vdims, dim1, dim2, vtype, atype, type;
+  Integer vndim, vdims[MAXDIM], dim1, dim2, vtype, atype, type;
   Integer me = pnga_nodeid (), i, nproc = pnga_nnodes();
-  Integer andim, adims[2];
+  Integer andim, adims[MAXDIM];
   Integer loA[2], hiA[2], ld;
   Integer num_blocks_a;
   int local_sync_begin,local_sync_end;
@@ -1715,7 +1715,7 @@ void pnga_add_diagonal(Integer g_a, Integer g_v)
   dim1 = adims[0];
   dim2 = adims[1];
   type = atype;
-  pnga_inquire(g_v, &vtype, &vndim, &vdims);
+  pnga_inquire(g_v, &vtype, &vndim, vdims);
 
   /* Perform some error checking */
   if (andim != 2)
@@ -1724,7 +1724,7 @@ void pnga_add_diagonal(Integer g_a, Integer g_v)
     pnga_error("ga_add_diagonal: wrong dimension for g_v.", vndim);
 
 
-  if (vdims != GA_MIN (dim1, dim2))
+  if (vdims[0] != GA_MIN (dim1, dim2))
     pnga_error
       ("ga_add_diagonal: The size of the first array's diagonal is greater than the size of the second array.",
        type);
@@ -1925,9 +1925,9 @@ static void sgai_set_diagonal_block(Integer g_a, void *ptr, Integer g_v, Integer
 #endif
 void pnga_set_diagonal(Integer g_a, Integer g_v)
 {
-  Integer vndim, vdims, dim1, dim2, vtype, atype, type;
+  Integer vndim, vdims[MAXDIM], dim1, dim2, vtype, atype, type;
   Integer me = pnga_nodeid (), i, nproc = pnga_nnodes();
-  Integer andim, adims[2];
+  Integer andim, adims[MAXDIM];
   Integer loA[2], hiA[2], ld;
   Integer num_blocks_a;
   int local_sync_begin,local_sync_end;
@@ -1945,7 +1945,7 @@ void pnga_set_diagonal(Integer g_a, Integer g_v)
   dim1 = adims[0];
   dim2 = adims[1];
   type = atype;
-  pnga_inquire (g_v, &vtype, &vndim, &vdims);
+  pnga_inquire (g_v, &vtype, &vndim, vdims);
 
   /* Perform some error checking */
   if (andim != 2)
@@ -1954,7 +1954,7 @@ void pnga_set_diagonal(Integer g_a, Integer g_v)
     pnga_error("ga_set_diagonal: wrong dimension for g_v.", vndim);
 
 
-  if (vdims != GA_MIN (dim1, dim2))
+  if (vdims[0] != GA_MIN (dim1, dim2))
     pnga_error
       ("ga_set_diagonal: The size of the first array's diagonal is greater than the size of the second array.",
        type);
@@ -2129,7 +2129,7 @@ static void sgai_shift_diagonal_block(Integer g_a, void *ptr, Integer *loA, Inte
 void pnga_shift_diagonal(Integer g_a, void *c)
 {
   Integer loA[2], hiA[2]/*, dim1, dim2*/, ld;
-  Integer andim, adims[2], type, atype;
+  Integer andim, adims[MAXDIM], type, atype;
   Integer me = pnga_nodeid (), i, nproc = pnga_nnodes();
   char *ptr;
   Integer num_blocks_a;
@@ -2282,7 +2282,7 @@ void pnga_zero_diagonal(Integer g_a)
   Integer me = pnga_nodeid (), i, offset;
   char *ptr;
   Integer num_blocks_a;
-  Integer atype, andim, adims[2];
+  Integer atype, andim, adims[MAXDIM];
   int local_sync_begin,local_sync_end;
   _iterator_hdl hdl;
 
@@ -2510,11 +2510,11 @@ static void sgai_scale_row_values(Integer type, Integer *lo,
 #endif
 void pnga_scale_rows(Integer g_a, Integer g_v)
 {
-  Integer vndim, vdims, dim1/*, dim2*/, vtype, atype, type;
+  Integer vndim, vdims[MAXDIM], dim1/*, dim2*/, vtype, atype, type;
   Integer ld, lo[2], hi[2];
   Integer me = pnga_nodeid (), i, chk;
   char *ptr;
-  Integer andim, adims[2];
+  Integer andim, adims[MAXDIM];
   Integer num_blocks_a;
   int local_sync_begin,local_sync_end;
   _iterator_hdl hdl;
@@ -2530,7 +2530,7 @@ void pnga_scale_rows(Integer g_a, Integer g_v)
   dim1 = adims[0];
   /*dim2 = adims[1];*/
   type = atype;
-  pnga_inquire (g_v, &vtype, &vndim, &vdims);
+  pnga_inquire (g_v, &vtype, &vndim, vdims);
 
   /* Perform some error checking */
   if (andim != 2)
@@ -2540,10 +2540,10 @@ void pnga_scale_rows(Integer g_a, Integer g_v)
 
   /*in internal functions, dim1 = number of rows of the matrix g_a*/
   /*in internal functions, dim2 = number of columns of the matrix g_a*/
-  if (vdims != dim1)
+  if (vdims[0] != dim1)
     pnga_error
       ("ga_scale_rows_: The size of the scalar array is not the same as the number of the rows of g_a.",
-       vdims);
+       vdims[0]);
 
   if (vtype != atype)
   {
@@ -2718,11 +2718,11 @@ static void sgai_scale_col_values(Integer type, Integer *lo,
 #endif
 void pnga_scale_cols(Integer g_a, Integer g_v)
 {
-  Integer vndim, vdims/*, dim1*/, dim2, vtype, atype, type;
+  Integer vndim, vdims[MAXDIM]/*, dim1*/, dim2, vtype, atype, type;
   Integer ld, lo[2], hi[2];
   Integer me = pnga_nodeid (), i;
   char *ptr;
-  Integer andim, adims[2];
+  Integer andim, adims[MAXDIM];
   int local_sync_begin,local_sync_end;
   Integer num_blocks_a;
   Integer chk;
@@ -2739,7 +2739,7 @@ void pnga_scale_cols(Integer g_a, Integer g_v)
   /*dim1 = adims[0];*/
   dim2 = adims[1];
   type = atype;
-  pnga_inquire(g_v, &vtype, &vndim, &vdims);
+  pnga_inquire(g_v, &vtype, &vndim, vdims);
 
   /* Perform some error checking */
   if (andim != 2)
@@ -2749,10 +2749,10 @@ void pnga_scale_cols(Integer g_a, Integer g_v)
 
   /*in internal functions, dim1 = number of rows of the matrix g_a*/
   /*in internal functions, dim2 = number of columns of the matrix g_a*/
-  if (vdims != dim2)
+  if (vdims[0] != dim2)
     pnga_error
       ("ga_scale_cols_: The size of the scalar array is not the same as the number of the rows of g_a.",
-       vdims);
+       vdims[0]);
 
   if (vtype != atype)
     {
diff --git a/global/src/sparse.c b/global/src/sparse.c
index 84b9416..b355ec9 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -26,7 +26,7 @@
 #endif
 void pnga_patch_enum(Integer g_a, Integer lo, Integer hi, void* start, void* stride)
 {
-Integer dims[1],lop,hip;
+Integer dims[MAXDIM],lop,hip;
 Integer ndim, type, me, off;
 
    pnga_sync();
@@ -91,7 +91,7 @@ void pnga_scan_copy(Integer g_src, Integer g_dst, Integer g_msk,
                            Integer lo, Integer hi)
 {       
     long *lim=NULL;
-    Integer i, nproc, me, elems, ioff, lop, hip, ndim, dims, ld;
+    Integer i, nproc, me, elems, ioff, lop, hip, ndim, dims[MAXDIM], ld;
     Integer type_src, type_dst, type_msk, combined_type;
     void *ptr_src=NULL;
     void *ptr_dst=NULL;
@@ -109,9 +109,9 @@ void pnga_scan_copy(Integer g_src, Integer g_dst, Integer g_msk,
     if(!pnga_compare_distr(g_dst, g_msk))
         pnga_error("ga_scan_copy: different distribution dst",0);
 
-    pnga_inquire(g_src, &type_src, &ndim, &dims);
-    pnga_inquire(g_dst, &type_dst, &ndim, &dims);
-    pnga_inquire(g_msk, &type_msk, &ndim, &dims);
+    pnga_inquire(g_src, &type_src, &ndim, dims);
+    pnga_inquire(g_dst, &type_dst, &ndim, dims);
+    pnga_inquire(g_msk, &type_msk, &ndim, dims);
     if(ndim>1)pnga_error("ga_scan_copy: applicable to 1-dim arrays",ndim);
     if(g_src == g_dst) {
         pnga_error("ga_scan_copy: src and dst must be different arrays", 0);
@@ -228,7 +228,7 @@ void pnga_scan_add(Integer g_src, Integer g_dst, Integer g_msk,
                            Integer lo, Integer hi, Integer excl)
 {
     long *lim=NULL;
-    Integer i, nproc, me, elems, ioff, lop, hip, ndim, dims, ld;
+    Integer i, nproc, me, elems, ioff, lop, hip, ndim, dims[MAXDIM], ld;
     Integer type_src, type_dst, type_msk, combined_type;
     void *ptr_src=NULL;
     void *ptr_dst=NULL;
@@ -246,9 +246,9 @@ void pnga_scan_add(Integer g_src, Integer g_dst, Integer g_msk,
     if(!pnga_compare_distr(g_dst, g_msk))
         pnga_error("ga_scan_add: different distribution dst",0);
 
-    pnga_inquire(g_src, &type_src, &ndim, &dims);
-    pnga_inquire(g_dst, &type_dst, &ndim, &dims);
-    pnga_inquire(g_msk, &type_msk, &ndim, &dims);
+    pnga_inquire(g_src, &type_src, &ndim, dims);
+    pnga_inquire(g_dst, &type_dst, &ndim, dims);
+    pnga_inquire(g_msk, &type_msk, &ndim, dims);
     if(ndim>1)pnga_error("ga_scan_add: applicable to 1-dim arrays",ndim);
     if(g_src == g_dst) {
         pnga_error("ga_scan_add: src and dst must be different arrays", 0);
@@ -563,7 +563,7 @@ static void sga_pack_unpack(Integer g_src, Integer g_dst, Integer g_msk,
     void *ptr;
     long *lim=NULL;
     Integer nproc, me, i, myplace, np=0, first=-1;
-    Integer lop, hip, dims;
+    Integer lop, hip, dims[MAXDIM];
     Integer ndim_src, ndim_dst, ndim_msk;
     Integer type_src, type_dst, type_msk;
 
@@ -573,9 +573,9 @@ static void sga_pack_unpack(Integer g_src, Integer g_dst, Integer g_msk,
     pnga_check_handle(g_src, "ga_pack src");
     pnga_check_handle(g_dst, "ga_pack dst");
     pnga_check_handle(g_msk, "ga_pack msk");
-    pnga_inquire(g_src, &type_src, &ndim_src, &dims);
-    pnga_inquire(g_dst, &type_dst, &ndim_dst, &dims);
-    pnga_inquire(g_msk, &type_msk, &ndim_msk, &dims);
+    pnga_inquire(g_src, &type_src, &ndim_src, dims);
+    pnga_inquire(g_dst, &type_dst, &ndim_dst, dims);
+    pnga_inquire(g_msk, &type_msk, &ndim_msk, dims);
     if (1 != ndim_src) {
         pnga_error("ga_pack: supports 1-dim arrays only: src", ndim_src);
     }
-- 
2.43.0


From 35a7a57c16bc21625402d88a92cbfeaf137e849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:24 +0000
Subject: [PATCH 106/126] fix: DRA_Init with a default array count allocates
 the default-size table

---
 pario/dra/disk.arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pario/dra/disk.arrays.c b/pario/dra/disk.arrays.c
index 947d8a9..ed089a4 100644
--- a/pario/dra/disk.arrays.c
+++ b/pario/dra/disk.arrays.c
@@ -547,7 +547,7 @@ Integer FATR dra_init_(
 
     Dra_num_serv = drai_get_num_serv();
 
-    DRA = (disk_array_t*)malloc(sizeof(disk_array_t)* (int)*max_arrays);
+    DRA = (disk_array_t*)malloc(sizeof(disk_array_t)* (int)_max_disk_array);
     if(!DRA) dai_error("dra_init: memory alocation failed\n",0);
     for(i=0; i<_max_disk_array ; i++)DRA[i].actv=0;
 
-- 
2.43.0


From 6d2616afc4762d7680d8500c6790566553193226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:07 +0000
Subject: [PATCH 107/126] fix: reopening a disk array restores the name it was
 created with

---
 pario/dra/disk.param.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pario/dra/disk.param.c b/pario/dra/disk.param.c
index 2a245d5..1f0e5bf 100644
--- a/pario/dra/disk.param.c
+++ b/pario/dra/disk.param.c
@@ -124,7 +124,8 @@ int dai_read_param(char* filename,Integer d_a)
             DRA[dra_hndl].ioprocs = (Integer) input;
 
             fgets(dummy,HDLEN,fd); /*advance to next line*/
-            if(!fgets(DRA[dra_hndl].name,DRA_MAX_NAME,fd))dai_error("dai_read_param:name",0);
+            if(!fgets(DRA[dra_hndl].name,sizeof(DRA[dra_hndl].name),fd))dai_error("dai_read_param:name",0);
+            DRA[dra_hndl].name[strcspn(DRA[dra_hndl].name,"\n")] = '\0';
 
             if(fclose(fd))dai_error("dai_read_param: fclose failed",0);
         }else rc = -1;
-- 
2.43.0


From 6698a72d8eba280c5183448b81bb9d5e1bef1ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:07 +0000
Subject: [PATCH 108/126] fix: a failed disk array open releases its handle

---
 pario/dra/disk.arrays.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pario/dra/disk.arrays.c b/pario/dra/disk.arrays.c
index ed089a4..44c4ca3 100644
--- a/pario/dra/disk.arrays.c
+++ b/pario/dra/disk.arrays.c
@@ -894,7 +894,10 @@ Integer drai_open(char *filename, Integer *mode, Integer *d_a)
     /*translate DRA mode into ELIO mode*/
     emode = dai_elio_mode((int)*mode);
 
-    if(dai_read_param(DRA[handle].fname, *d_a))return((Integer)-1);
+    if(dai_read_param(DRA[handle].fname, *d_a)) {
+        dai_release_handle(d_a);
+        return((Integer)-1);
+    }
 
     DRA[handle].indep = dai_file_config(filename); /*check file configuration*/
 
-- 
2.43.0


From f80b9c9902bec30c93f0b13111c8e68fef6f9843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:58 +0000
Subject: [PATCH 109/126] fix: transposed disk array transfers complete their
 communication before releasing its buffer

---
 pario/dra/disk.arrays.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pario/dra/disk.arrays.c b/pario/dra/disk.arrays.c
index 44c4ca3..035e38a 100644
--- a/pario/dra/disk.arrays.c
+++ b/pario/dra/disk.arrays.c
@@ -523,6 +523,8 @@ void dai_callback(int op, int transp, section_t gs_a, section_t ds_a, section_t
  */
 void wait_buf(char *buf);
 
+extern void ga_init_nbhandle(Integer *nbhandle);
+
 
 /**
  * INITIALIZE DISK ARRAY DATA STRUCTURES
@@ -1388,7 +1390,9 @@ void nga_move(int op, int trans, section_t gs_a, section_t ds_a,
             /* transpose buffer with data from global array */
             for (i=0; i<ndim; i++) ldg[i] = gs_chunk.hi[i] - gs_chunk.lo[i] + 1;
             /* copy data from global array to temporary buffer */
-            nga_get_sectM(gs_chunk, base_addr, ldg, ga_movhdl); 
+            /* (the data is needed right away) */
+            pnga_get(gs_chunk.handle, gs_chunk.lo, gs_chunk.hi, base_addr, ldg);
+            if (ga_movhdl != NULL) ga_init_nbhandle(ga_movhdl);
             for (i=0; i<nelem1; i++ ) {
                 /* find indices of elements in MA buffer */
                 if (ndim > 1) {
@@ -1496,7 +1500,9 @@ void nga_move(int op, int trans, section_t gs_a, section_t ds_a,
                     jtmp += nelem2;
                 }
             }
-            nga_put_sectM(gs_chunk, base_addr, ldt, ga_movhdl); 
+            /* the temporary array is released before returning */
+            pnga_put(gs_chunk.handle, gs_chunk.lo, gs_chunk.hi, base_addr, ldt);
+            if (ga_movhdl != NULL) ga_init_nbhandle(ga_movhdl);
         }
         MA_pop_stack(vhandle);
     } else {
-- 
2.43.0


From 9ed0a6ea6560b2a83a4cb5c16eaccb97e1f28ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 110/126] fix: asynchronous EAF transfers of in-memory files
 move the data and return a completed request

---
 pario/eaf/eaf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index eb8aa33..c0def14 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -312,7 +312,8 @@ int EAF_Awrite(
 	return EAF_ERR_WRITE;
       }else{
       memcpy(((char*)file[fd].pointer)+(long)offset, buf, bytes);
-      rc=bytes;
+      req=ELIO_DONE;
+      rc=0;
       }
     }else{
     rc = elio_awrite(file[fd].elio_fd, (Off_t)offset, buf, (Size_t)bytes, &req);
@@ -382,7 +383,8 @@ int EAF_Aread(int fd, eaf_off_t offset, void *buf, size_t bytes, int *req_id)
 	printf("eaf_aread: offset %f larger than MA size %ld \n", offset, file[fd].size);
         return EAF_ERR_READ;
       }else{
-      memcpy(file[fd].pointer, buf, bytes);
+      memcpy(buf, ((char*)file[fd].pointer)+(long)offset, bytes);
+      req=ELIO_DONE;
       rc=0;
       }
     }else{
-- 
2.43.0


From 5ccfed35c71f72b4c30d2c0d4c26d8776e25f30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 111/126] fix: EAF transfers of in-memory files may not extend
 past the end of the file

---
 pario/eaf/eaf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index c0def14..b7609d0 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -306,7 +306,7 @@ int EAF_Awrite(
     if (!valid_fd(fd)) return EAF_ERR_INVALID_FD;
 
     if (file[fd].size > 0) {
-      if(offset>file[fd].size){
+      if((Integer)(offset+bytes)>file[fd].size){
 	rc=0;
 	printf("eaf_awrite: offset %f larger than MA size %ld \n", offset, file[fd].size);
 	return EAF_ERR_WRITE;
@@ -340,7 +340,7 @@ int EAF_Read(int fd, eaf_off_t offset, void *buf, size_t bytes)
     if (!valid_fd(fd)) return EAF_ERR_INVALID_FD;
     
     if (file[fd].size > 0) {
-      if(offset>file[fd].size){
+      if((Integer)(offset+bytes)>file[fd].size){
 	rc=0;
 	printf("eaf_read: offset %f larger than MA size %ld \n", offset, file[fd].size);
       }else{
@@ -378,7 +378,7 @@ int EAF_Aread(int fd, eaf_off_t offset, void *buf, size_t bytes, int *req_id)
     if (!valid_fd(fd)) return EAF_ERR_INVALID_FD;
 
     if (file[fd].size > 0) {
-      if(offset>file[fd].size){
+      if((Integer)(offset+bytes)>file[fd].size){
 	rc=0;
 	printf("eaf_aread: offset %f larger than MA size %ld \n", offset, file[fd].size);
         return EAF_ERR_READ;
-- 
2.43.0


From 251ee565691fff57e4dace4f874d181478e1b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 112/126] fix: EAF_Wait on an in-memory file returns success

---
 pario/eaf/eaf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index b7609d0..0439de6 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -413,6 +413,7 @@ int EAF_Wait(int fd, int req_id)
     io_request_t req = req_id;
     if (file[fd].size > 0) {
       /* got nothin' to do */
+      code = EAF_OK;
     }else{
     code = elio_wait(&req);
     }
-- 
2.43.0


From da9207c5d1d0868a48a3ebf037ea8fe58ff8ea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 113/126] fix: EAF_Probe tests the request

---
 pario/eaf/eaf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index 0439de6..fffc402 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -441,7 +441,7 @@ int EAF_Probe(int req_id, int *status)
     rc = elio_probe(&req, status);
     }
 #else
-    rc=0;
+    rc = elio_probe(&req, status);
 #endif
     if(!rc) *status = !(*status == ELIO_DONE);
     return rc;
-- 
2.43.0


From 7cb82de5c4c20c974994bca9a0e72422ed0c3489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 114/126] fix: EAF_Truncate rejects in-memory files

---
 pario/eaf/eaf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index fffc402..bf7abaa 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -601,6 +601,8 @@ int EAF_Truncate(int fd, eaf_off_t length)
 {
     if (!valid_fd(fd)) return EAF_ERR_INVALID_FD;
 
+    if (file[fd].size > 0) return EAF_ERR_UNIMPLEMENTED;
+
     if(elio_truncate(file[fd].elio_fd, (Off_t)length)) return EAF_ERR_TRUNCATE;
 
     return EAF_OK;
-- 
2.43.0


From 80a8ed1c3c8f529f22819c770b0da4e892e6e2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 115/126] fix: EAF finds an in-memory file by name in any slot

---
 pario/eaf/eaf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index bf7abaa..20785a3 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -149,8 +149,8 @@ int EAF_Open(const char *fname, int type, int *fd)
     if (i == EAF_MAX_FILES) return EAF_ERR_MAX_OPEN;
 	
     file[i].size=0;
-    for (j=0; j< i; j++){
-      if(strcmp(file[j].fname,fname) == 0 && file[j].size >0) {
+    for (j=0; j< EAF_MAX_FILES; j++){
+      if(file[j].fname && strcmp(file[j].fname,fname) == 0 && file[j].size >0) {
 	found=1;
 	break;
       }
@@ -172,7 +172,7 @@ int EAF_Open(const char *fname, int type, int *fd)
 
 	if (!MA_alloc_get(MT_CHAR, file[i].size, fname, &handle, &index))
 	  return EAF_ERR_OPEN;
-	if ((i +1) > eafhack_openfiles) eafhack_openfiles++;
+	if ((i +1) > eafhack_openfiles) eafhack_openfiles = i + 1;
     /* MA hack: we pass   type = sizeof MA alloc in megabytes */
 	MA_get_pointer(handle, &ptr);
     if (!(file[i].fname = strdup(fname)))
-- 
2.43.0


From c060967287a2650974a4d1f44dc7cd8ca9f317d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 116/126] fix: EAF_Eof recognizes the end-of-file code that
 reads return

---
 pario/eaf/eaf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index 20785a3..a20fadd 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -57,7 +57,7 @@
 #   include <sys/time.h>
 #endif
 
-#include "elio.h"
+#include "eliop.h"
 #include "eaf.h"
 #include "eafP.h"
 #include "macdecls.h"
@@ -537,7 +537,7 @@ int EAF_Stat(const char *path, long *avail_mb, char *fstype, int fslen)
  */
 int EAF_Eof(int code)
 {
-    return !(code == EAF_ERR_EOF);
+    return !(code == EAF_ERR_EOF || code == EOFFAIL);
 }
 
 
-- 
2.43.0


From e6d8e5d8fcbb52630fb56b44b569c2ba84f2b71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:25 +0000
Subject: [PATCH 117/126] fix: Fortran EAF transfers reject non-integer offsets

---
 pario/eaf/eaf_f2c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pario/eaf/eaf_f2c.c b/pario/eaf/eaf_f2c.c
index b1afad3..7fbfac8 100644
--- a/pario/eaf/eaf_f2c.c
+++ b/pario/eaf/eaf_f2c.c
@@ -39,7 +39,7 @@
 
 static int valid_offset(double offset)
 {
-    return ((offset - ((double) ((eaf_off_t) offset))) == 0.0);
+    return ((offset - ((double) ((long long) offset))) == 0.0);
 }
 
     
-- 
2.43.0


From 9ccf244e67dbd26676c00b81c801f9a3c16b63b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:10 +0000
Subject: [PATCH 118/126] fix: the Fortran interface of pfcopy passes the file
 name with its length

---
 tcgmsg/fapi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcgmsg/fapi.c b/tcgmsg/fapi.c
index 5b49730..2d68f4f 100644
--- a/tcgmsg/fapi.c
+++ b/tcgmsg/fapi.c
@@ -222,7 +222,7 @@ void FATR _PFCOPY_(Integer *type, Integer *node0, char *filename, int flen)
     long atype = *type;
     long anode0 = *node0;
 
-    PFILECOPY_(&atype, &anode0, filename);
+    PFCOPY_(&atype, &anode0, filename, flen);
 }
 
 
-- 
2.43.0


From cba36830a76e4fb18d59dd556c3e9433c0e34d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:10 +0000
Subject: [PATCH 119/126] fix: tcgmsg keeps asynchronous sends in the list of
 outstanding messages

---
 tcgmsg/tcgmsg-mpi/p2p.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tcgmsg/tcgmsg-mpi/p2p.c b/tcgmsg/tcgmsg-mpi/p2p.c
index 017f521..dc40743 100644
--- a/tcgmsg/tcgmsg-mpi/p2p.c
+++ b/tcgmsg/tcgmsg-mpi/p2p.c
@@ -48,6 +48,7 @@ void SND_(long *type, void *buf, long *lenbuf, long *node, long *sync)
         msg_q[n_in_msg_q].type   = *type;
         msg_q[n_in_msg_q].lenbuf = *lenbuf;
         msg_q[n_in_msg_q].snd = 1;
+        n_in_msg_q++;
     }
 }
 
-- 
2.43.0


From c0cecdd96c4a0d8bedb37e320294827e986edde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:33 +0000
Subject: [PATCH 120/126] fix: tcgmsg global operations accept zero elements

---
 tcgmsg/tcgmsg-mpi/collect.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tcgmsg/tcgmsg-mpi/collect.c b/tcgmsg/tcgmsg-mpi/collect.c
index 4c20743..121d439 100644
--- a/tcgmsg/tcgmsg-mpi/collect.c
+++ b/tcgmsg/tcgmsg-mpi/collect.c
@@ -22,7 +22,7 @@ void IGOP_(long *ptype, long *x, long *pn, char *op, int oplen)
     long *work  = (long *) igop_work;
     long nleft  = *pn;
     long buflen = TCG_MIN(nleft,IGOP_BUF_SIZE); /**< Try to get even sized buffers */
-    long nbuf   = (nleft-1) / buflen + 1;
+    long nbuf;
     long n;
 
 /* #ifdef ARMCI */
@@ -31,6 +31,10 @@ void IGOP_(long *ptype, long *x, long *pn, char *op, int oplen)
     }
 /* #endif */
 
+    if (nleft < 1) {
+        return; /* nothing to combine */
+    }
+    nbuf   = (nleft-1) / buflen + 1;
     buflen = (nleft-1) / nbuf + 1;
 
     if (strncmp(op,"abs",3) == 0) {
@@ -99,9 +103,13 @@ void DGOP_(long *ptype, double *x, long *pn, char *op, int oplen)
     double *work=  dgop_work;
     long nleft  = *pn;
     long buflen = TCG_MIN(nleft,DGOP_BUF_SIZE); /**< Try to get even sized buffers */
-    long nbuf   = (nleft-1) / buflen + 1;
+    long nbuf;
     long n;
 
+    if (nleft < 1) {
+        return; /* nothing to combine */
+    }
+    nbuf   = (nleft-1) / buflen + 1;
     buflen = (nleft-1) / nbuf + 1;
 
     if (strncmp(op,"abs",3) == 0) {
-- 
2.43.0


From 7aaa9463648b0fc86e87addc62824f338e14ec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:12 +0000
Subject: [PATCH 121/126] fix: the counter's server answers requests while it
 waits in a NXTVAL reset

---
 tcgmsg/tcgmsg-mpi/nxtval-armci.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tcgmsg/tcgmsg-mpi/nxtval-armci.c b/tcgmsg/tcgmsg-mpi/nxtval-armci.c
index 553247c..e59f76f 100644
--- a/tcgmsg/tcgmsg-mpi/nxtval-armci.c
+++ b/tcgmsg/tcgmsg-mpi/nxtval-armci.c
@@ -51,10 +51,9 @@ long NXTVAL_(long *mproc)
         }
 
         if (*mproc < 0) {
-            rc=MPI_Barrier(TCGMSG_Comm); 
-            if(rc!=MPI_SUCCESS) {
-                Error("nxtval: barrier failed",0);
-            }
+            /* the server has to answer requests for the counter until all
+             * processes get here, which it does not do in MPI_Barrier */
+            ARMCI_Barrier();
 
             /* reset the counter value to zero */
             if( NODEID_() == server) {
-- 
2.43.0


From 96b573a518ddd427d3b3eacdc34415a39d1163eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:25 +0000
Subject: [PATCH 122/126] fix: the mpi-pr, mpi-mt, mpi-pt and mpi3 runtimes can
 be initialised again after termination

---
 comex/src-mpi-mt/groups.c | 1 +
 comex/src-mpi-pr/groups.c | 1 +
 comex/src-mpi-pt/groups.c | 1 +
 comex/src-mpi3/comex.c    | 3 +++
 4 files changed, 6 insertions(+)

diff --git a/comex/src-mpi-mt/groups.c b/comex/src-mpi-mt/groups.c
index c8d43f7..7a61300 100644
--- a/comex/src-mpi-mt/groups.c
+++ b/comex/src-mpi-mt/groups.c
@@ -453,6 +453,7 @@ void comex_group_finalize()
         current_group_list_item = current_group_list_item->next;
         _igroup_free(previous_group_list_item);
     }
+    group_list = NULL;
 
     free(g_state.hostid);
     status = MPI_Comm_free(&(g_state.node_comm));
diff --git a/comex/src-mpi-pr/groups.c b/comex/src-mpi-pr/groups.c
index bd00649..c011743 100644
--- a/comex/src-mpi-pr/groups.c
+++ b/comex/src-mpi-pr/groups.c
@@ -624,6 +624,7 @@ void comex_group_finalize()
         current_group_list_item = current_group_list_item->next;
         _igroup_free(previous_group_list_item);
     }
+    group_list = NULL;
 
     free(g_state.master);
     free(g_state.host);
diff --git a/comex/src-mpi-pt/groups.c b/comex/src-mpi-pt/groups.c
index 2fa3f89..2b1f995 100644
--- a/comex/src-mpi-pt/groups.c
+++ b/comex/src-mpi-pt/groups.c
@@ -488,6 +488,7 @@ void comex_group_finalize()
         current_group_list_item = current_group_list_item->next;
         _igroup_free(previous_group_list_item);
     }
+    group_list = NULL;
 
     free(g_state.master);
     free(g_state.hostid);
diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index dd5a576..72b2428 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -2066,6 +2066,9 @@ int comex_finalize()
 
     MPI_Barrier(l_state.world_comm);
 
+    /* registered memory */
+    reg_win_destroy();
+
     /* destroy the communicators */
 #if 0
     ierr = MPI_Comm_free(&l_state.world_comm);
-- 
2.43.0


From 0d05d14347ec66ea66cad7c752015c9e0fa96216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:36 +0000
Subject: [PATCH 123/126] fix: shared memory names of mpi-pt are unique among
 the jobs and sessions of a node

---
 comex/src-mpi-pt/comex.c      | 15 ++++++---------
 comex/src-mpi-pt/comex_impl.h |  2 +-
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 521ba37..05f4ee0 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -1047,21 +1047,19 @@ STATIC void unpack(char *packed_buffer,
 STATIC char* _generate_shm_name(int rank)
 {
     int snprintf_retval = 0;
-    /* /cmxPPPPPPPPCCCCCCC  */
-    /* 00000000011111111112 */
-    /* 12345678901234567890 */
+    /* /cmxUUUUUUUUUUPPPPPPPPPPCCCCCC */
+    /* 000000000111111111122222222223 */
+    /* 123456789012345678901234567890 */
     char *name = NULL;
     static const unsigned int limit = 62;
     static const char letters[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
-    static unsigned int counter[7] = {0};
-    unsigned int urank = rank;
+    static unsigned int counter[6] = {0};
 
     COMEX_ASSERT(rank >= 0);
     name = malloc(SHM_NAME_SIZE*sizeof(char));
     COMEX_ASSERT(name);
     snprintf_retval = snprintf(name, SHM_NAME_SIZE,
-            "/cmx%08u%c%c%c%c%c%c%c", urank,
-            letters[counter[6]],
+            "/cmx%010u%010u%c%c%c%c%c%c", getuid(), getpid(),
             letters[counter[5]],
             letters[counter[4]],
             letters[counter[3]],
@@ -1076,8 +1074,7 @@ STATIC char* _generate_shm_name(int rank)
     if (counter[2] >= limit) { ++counter[3]; counter[2] = 0; }
     if (counter[3] >= limit) { ++counter[4]; counter[3] = 0; }
     if (counter[4] >= limit) { ++counter[5]; counter[4] = 0; }
-    if (counter[5] >= limit) { ++counter[6]; counter[5] = 0; }
-    if (counter[6] >= limit) {
+    if (counter[5] >= limit) {
         comex_error("_generate_shm_name: too many names generated", -1);
     }
 #if DEBUG
diff --git a/comex/src-mpi-pt/comex_impl.h b/comex/src-mpi-pt/comex_impl.h
index 6d98d75..8f47100 100644
--- a/comex/src-mpi-pt/comex_impl.h
+++ b/comex/src-mpi-pt/comex_impl.h
@@ -11,7 +11,7 @@
 #define COMEX_MAX_STRIDE_LEVEL 8
 #define COMEX_TAG 27624
 #define COMEX_STATIC_BUFFER_SIZE (2u*1048576u)
-#define SHM_NAME_SIZE 20
+#define SHM_NAME_SIZE 31
 #define UNLOCKED -1
 
 /* performance or correctness related settings */
-- 
2.43.0


From 94b58cdd39bea365d664d52b2f888f3b775e36ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:27 +0000
Subject: [PATCH 124/126] fix: GA_Terminate works over all processes when the
 default group is not the world

---
 global/src/base.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index e085b32..8ec8be9 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4195,6 +4195,10 @@ Integer i, handle;
         return;
     }
 
+    /* what follows is collective over all processes, whatever group the user
+       made the default one */
+    pnga_pgroup_set_default(-1);
+
     sai_terminate_sparse_arrays();
 #ifdef PROFILE_OLD 
     ga_profile_terminate();
-- 
2.43.0


From 1b939032ca24cc9901d30efb7faa37239a17e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:15 +0000
Subject: [PATCH 125/126] fix: the Fortran integer scaling routines accept
 integer arrays

---
 global/src/fapi.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/global/src/fapi.c b/global/src/fapi.c
index b5c2cbf..07471eb 100644
--- a/global/src/fapi.c
+++ b/global/src/fapi.c
@@ -2423,7 +2423,7 @@ void FATR ga_iscale_(Integer *g_a, Integer* alpha)
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong type ", 0L);
     wnga_scale(*g_a, alpha);
 }
@@ -2433,7 +2433,7 @@ void FATR ga_iscal_(Integer *g_a, Integer* alpha)
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong type ", 0L);
     wnga_scale(*g_a, alpha);
 }
@@ -2502,7 +2502,7 @@ void FATR nga_iscale_(Integer *g_a, Integer* alpha)
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong type ", 0L);
     wnga_scale(*g_a, alpha);
 }
@@ -2929,7 +2929,7 @@ void FATR ga_iscal_patch_(Integer *g_a, Integer *ilo, Integer *ihi, Integer *jlo
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong types ", 0L);
     sga_scale_patch(*g_a, ilo, ihi, jlo, jhi, alpha);
 }
@@ -2980,7 +2980,7 @@ void FATR nga_iscale_patch_(Integer *g_a, Integer *lo, Integer *hi, Integer *alp
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong types ", 0L);
     wnga_scale_patch(*g_a, lo, hi, alpha);
 }
-- 
2.43.0


From acc2a57471a7f88425ed4450622bb1fa97851270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:44 +0000
Subject: [PATCH 126/126] fix: ga_zero_patch uses the requested upper column
 bound

---
 global/src/fapi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/fapi.c b/global/src/fapi.c
index 07471eb..d2e542f 100644
--- a/global/src/fapi.c
+++ b/global/src/fapi.c
@@ -2641,7 +2641,7 @@ void FATR ga_zero_patch_(Integer *g_a, Integer *ilo, Integer *ihi, Integer *jlo,
     Integer lo[2], hi[2];
 
     lo[0] = *ilo; lo[1] = *jlo;
-    hi[0] = *ihi; lo[1] = *jhi;
+    hi[0] = *ihi; hi[1] = *jhi;
     wnga_zero_patch(*g_a, lo, hi);
 }
 
-- 
2.43.0

