From 1cf76e1833223ae0810185423bce4e5c7e2f52c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 001/107] fix: armci_check_contiguous treated some strided
 transfers as contiguous

Physical dimensions were derived by integer division of strides, so strides
that are not multiples of each other (and a NULL stride array for zero
levels) were misread. Compare byte strides with the packed length instead.
---
 comex/src-armci/armci.c | 39 +++++----------------------------------
 1 file changed, 5 insertions(+), 34 deletions(-)

diff --git a/comex/src-armci/armci.c b/comex/src-armci/armci.c
index 5f7d4b4..8dbdfb1 100644
--- a/comex/src-armci/armci.c
+++ b/comex/src-armci/armci.c
@@ -120,19 +120,9 @@ int armci_check_contiguous(int *src_stride, int *dst_stride,
   int i;
   int ret = 1;
   int stridelen = 1;
-  int gap = 0;
-  int src_ld[7], dst_ld[7];
-  /**
-   * Calculate physical dimensions of buffers from stride arrays
-   */
-  src_ld[0] = src_stride[0];
-  dst_ld[0] = dst_stride[0];
-  for (i=1; i<n_stride; i++) {
-    src_ld[i] = src_stride[i]/src_stride[i-1];
-    dst_ld[i] = dst_stride[i]/dst_stride[i-1];
-  }
-  /* NOTE: The count array contains the length of the final dimension and can
-   * be used to evaluate some corner cases
+  /* The transfer is contiguous if every dimension that is actually stepped
+   * through (count > 1) starts where the previous one ended, in both buffers.
+   * Strides are compared in bytes: they need not be multiples of each other.
    */
   for (i=0; i<n_stride; i++) {
     /* check for overflow */
@@ -142,31 +132,12 @@ int armci_check_contiguous(int *src_stride, int *dst_stride,
       break;
     }
     stridelen = tmp;
-    if ((count[i] < src_ld[i] || count[i] < dst_ld[i])
-        && gap == 1) {
-      /* Data is definitely strided in memory */
-      ret = 0;
-      break;
-    } else if ((count[i] < src_ld[i] || count[i] < dst_ld[i]) &&
-        gap == 0) {
-      /* First dimension that doesn't match physical dimension */
-      gap = 1;
-    } else if (count[i] != 1 && gap == 1) {
-      /* Found a mismatch between requested block and physical dimensions
-       * indicating a possible stride in memory
-       * */
+    if (count[i+1] != 1
+        && (src_stride[i] != stridelen || dst_stride[i] != stridelen)) {
       ret = 0;
       break;
     }
   }
-  /**
-   * Everything looks good up to this point but need to verify that last
-   * dimension is 1 if a mismatch between requested block and physical
-   * array dimensions has been found previously
-   */
-  if (gap == 1 && ret == 1 && n_stride > 0) {
-    if (count[n_stride] != 1) ret = 0;
-  }
   return ret;
 #else
   int i;
-- 
2.43.0


From 4362f165cd97468b75292f3e9b0914dd4efd4f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 002/107] fix: strided MPI datatypes were wrong for strides
 that are not multiples of each other

strided_to_subarray_dtype (mpi3 and mpi-pr) derived subarray dimensions by
integer division of byte strides. Build the type from byte strides.
---
 comex/src-mpi-pr/comex.c | 73 +++++++---------------------------------
 comex/src-mpi3/comex.c   | 62 +++++++++-------------------------
 2 files changed, 28 insertions(+), 107 deletions(-)

diff --git a/comex/src-mpi-pr/comex.c b/comex/src-mpi-pr/comex.c
index 5497f9a..b0139ff 100644
--- a/comex/src-mpi-pr/comex.c
+++ b/comex/src-mpi-pr/comex.c
@@ -7492,68 +7492,21 @@ STATIC void translate_mpi_error(int ierr, const char* location)
  */
 STATIC void strided_to_subarray_dtype(int *stride_array, int *count, int levels, MPI_Datatype base_type, MPI_Datatype *type)
 {
-    int ndims = levels+1;
-    int i = 0;
-    int ierr = 0;
-    int array_of_sizes[7];
-    int array_of_starts[7];
-    int array_of_subsizes[7];
-    int stride = 0;
-
-    ierr = MPI_Type_size(base_type,&stride);
-    translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_size");
-
-    /* the pointer to the local buffer points to the first data element
-     * in data exchange, not the origin of the local array, so all starts
-     * should be zero */
+    int i, ierr;
+    MPI_Datatype inner, outer;
+
+    /* Strides are in bytes and need not be multiples of each other (or of the
+     * base type), so describe each level by its own byte stride. */
+    ierr = MPI_Type_contiguous(count[0], base_type, &outer);
+    translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_contiguous");
     for (i=0; i<levels; i++) {
-        array_of_sizes[i] = stride_array[i]/stride;
-        array_of_starts[i] = 0;
-        array_of_subsizes[i] = count[i];
-        if (array_of_sizes[i] < array_of_subsizes[i]) {
-            fprintf(stderr, "p[%d] ERROR [strided_to_subarray_dtype]\n"
-                    "stride: %d\n"
-                    "stride_array[%d]: %d\n"
-                    "array_of_sizes[%d]: %d\n"
-                    "array_of_subsizes[%d]: %d\n",
-                    g_state.rank,
-                    stride,
-                    i,stride_array[i],
-                    i,array_of_sizes[i],
-                    i,array_of_subsizes[i]);
-        }
-        stride = stride_array[i];
-    }
-    array_of_sizes[levels] = count[levels];
-    array_of_starts[levels] = 0;
-    array_of_subsizes[levels] = count[levels];
-#if DEBUG
-    for (i=0; i<ndims; i++) {
-        fprintf(stderr, "p[%d] ndims: %d sizes[%d]: %d subsizes[%d]: %d starts[%d]: %d\n",
-                g_state.rank,
-                ndims,
-                i,array_of_sizes[i],
-                i,array_of_subsizes[i],
-                i,array_of_starts[i]);
-    }
-#endif
-
-    ierr = MPI_Type_create_subarray(ndims, array_of_sizes,
-            array_of_subsizes, array_of_starts, MPI_ORDER_FORTRAN,
-            base_type, type);
-    if (MPI_SUCCESS != ierr) {
-        fprintf(stderr, "p[%d] Error forming MPI_Datatype for one-sided strided operation."
-                " Check that stride dimensions are compatible with local block"
-                " dimensions\n",g_state.rank);
-        for (i=0; i<levels; i++) {
-            fprintf(stderr, "p[%d] count[%d]: %d stride[%d]: %d\n",
-                    g_state.rank,
-                    i,count[i],
-                    i,stride_array[i]);
-        }
-        fprintf(stderr, "p[%d] count[%d]: %d\n",g_state.rank,i,count[i]);
-        translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_subarray");
+        inner = outer;
+        ierr = MPI_Type_create_hvector(count[i+1], 1, (MPI_Aint)stride_array[i],
+                inner, &outer);
+        translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_hvector");
+        MPI_Type_free(&inner);
     }
+    *type = outer;
 }
 STATIC void check_devshm(int fd, size_t size){
 #ifdef __linux__
diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 75b4a53..a5976a1 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -678,53 +678,21 @@ int comex_acc(
 void strided_to_subarray_dtype(int *stride_array, int *count, int levels,
     MPI_Datatype base_type, MPI_Datatype *type)
 {
-   int ndims, i, ierr;
-   int array_of_sizes[7];
-   int array_of_starts[7];
-   int array_of_subsizes[7];
-   int stride;
-   ierr = MPI_Type_size(base_type,&stride);
-   translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_size");
-   ndims = levels+1;
-   /* the pointer to the local buffer points to the first data element in
-      data exchange, not the origin of the local array, so all starts should
-      be zero */
-   for (i=0; i<levels; i++) {
-     array_of_sizes[i] = stride_array[i]/stride;
-     array_of_starts[i] = 0;
-     array_of_subsizes[i] = count[i];
-     if (array_of_sizes[i] < array_of_subsizes[i]) {
-       printf("p[%d] ERROR [strided_to_subarray_dtype]\n"
-              "array_of_sizes[%d]: %d\n"
-              "array_of_subsizes[%d]: %d\n",l_state.rank,
-              i,array_of_sizes[i],i,array_of_subsizes[i]);
-     }
-     stride = stride_array[i];
-   }
-   array_of_sizes[levels] = count[levels];
-   array_of_starts[levels] = 0;
-   array_of_subsizes[levels] = count[levels];
-#if 0
-     for (i=0; i<ndims; i++) {
-       printf("p[%d] ndims: %d sizes[%d]: %d subsizes[%d]: %d starts[%d]: %d\n",
-           l_state.rank,ndims,i,array_of_sizes[i],i,array_of_subsizes[i],
-           i,array_of_starts[i]);
-     }
-#endif
-   
-   ierr = MPI_Type_create_subarray(ndims, array_of_sizes,array_of_subsizes,
-       array_of_starts,MPI_ORDER_FORTRAN,base_type,type);
-   if (ierr != 0) {
-     printf("p[%d] Error forming MPI_Datatype for one-sided strided operation."
-       " Check that stride dimensions are compatible with local block"
-       " dimensions\n",l_state.rank);
-     for (i=0; i<levels; i++) {
-       printf("p[%d] count[%d]: %d stride[%d]: %d\n",l_state.rank,i,count[i],
-           i,stride_array[i]);
-     }
-     printf("p[%d] count[%d]: %d\n",l_state.rank,i,count[i]);
-     translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_subarray");
-   }
+    int i, ierr;
+    MPI_Datatype inner, outer;
+
+    /* Strides are in bytes and need not be multiples of each other (or of the
+     * base type), so describe each level by its own byte stride. */
+    ierr = MPI_Type_contiguous(count[0], base_type, &outer);
+    translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_contiguous");
+    for (i=0; i<levels; i++) {
+        inner = outer;
+        ierr = MPI_Type_create_hvector(count[i+1], 1, (MPI_Aint)stride_array[i],
+                inner, &outer);
+        translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_hvector");
+        MPI_Type_free(&inner);
+    }
+    *type = outer;
 }
 
 /**
-- 
2.43.0


From afa46aef32b7f79fab02c942d07812f89b33fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 003/107] fix: mpi-pt comex_fence_proc did nothing unless the
 target was the node's master

Puts and accs to a remote node mark fence_array[master]; the fence looked at
fence_array[proc].
---
 comex/src-mpi-pt/comex.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 878bcbb..334d1f6 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -828,6 +828,7 @@ int comex_fence_all(comex_group_t group)
 int comex_fence_proc(int proc, comex_group_t group)
 {
     int world_proc = -1;
+    int p_master = -1;
     comex_igroup_t *igroup = NULL;
 
 #if DEBUG
@@ -838,18 +839,16 @@ int comex_fence_proc(int proc, comex_group_t group)
     CHECK_GROUP(group,proc);
     igroup = comex_get_igroup_from_group(group);
     world_proc = _get_world_rank(igroup, proc);
+    /* puts and accs are sent to, and recorded for, the target's master */
+    p_master = g_state.master[world_proc];
 
     /* optimize by only sending to procs which we have outstanding messages */
-    if (fence_array[world_proc]) {
-        int p_master = g_state.master[world_proc];
+    if (fence_array[p_master]) {
         header_t *header = NULL;
         nb_t *nb = NULL;
 
         nb = nb_wait_for_handle();
 
-        /* because we only fence to masters */
-        COMEX_ASSERT(p_master == world_proc);
-
         /* prepost recv for acknowledgment */
         nb_recv(NULL, 0, p_master, nb);
 
@@ -863,7 +862,7 @@ int comex_fence_proc(int proc, comex_group_t group)
         header->rank = 0;
         nb_send_header(header, sizeof(header_t), p_master, nb);
         nb_wait_for_all(nb);
-        fence_array[world_proc] = 0;
+        fence_array[p_master] = 0;
     }
 
     return COMEX_SUCCESS;
-- 
2.43.0


From 7350c71faa624a825c06a4e8e5e786d220d36aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 004/107] fix: mpi-pr comex_destroy_mutexes looked up the mutex
 count by world rank

---
 comex/src-mpi-pr/comex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comex/src-mpi-pr/comex.c b/comex/src-mpi-pr/comex.c
index b0139ff..24cd096 100644
--- a/comex/src-mpi-pr/comex.c
+++ b/comex/src-mpi-pr/comex.c
@@ -2270,7 +2270,7 @@ int comex_destroy_mutexes()
         header->remote_address = NULL;
         header->local_address = NULL;
         header->rank = 0;
-        header->length = num_mutexes[g_state.rank];
+        header->length = num_mutexes[group_list->rank];
         nb = nb_wait_for_handle();
         nb_recv(NULL, 0, my_master, nb); /* prepost ack */
         nb_send_header(header, sizeof(header_t), my_master, nb);
-- 
2.43.0


From 8c28bf2fe579bcc8ad13caed894588a97aba176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 005/107] fix: mpi-pt strided and vector operations overtook
 contiguous ones on the same node

---
 comex/src-mpi-pt/comex.c | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 334d1f6..ffc3172 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -4533,11 +4533,10 @@ STATIC void nb_puts(
     }
 
 #if ENABLE_PUT_PACKED
-#if ENABLE_PUT_SELF
-    /* if not a strided put to self, use packed algorithm */
-    if (g_state.rank != proc)
-#endif
-    {
+    /* if not a strided put to self or to the same SMP node, use packed algorithm */
+    if ((!ENABLE_PUT_SELF || g_state.rank != proc)
+            && (!ENABLE_PUT_SMP
+                || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
         nb_puts_packed(src, src_stride, dst, dst_stride, count, stride_levels, proc, nb);
         return;
     }
@@ -4685,11 +4684,10 @@ STATIC void nb_gets(
     }
 
 #if ENABLE_GET_PACKED
-#if ENABLE_GET_SELF
-    /* if not a strided get from self, use packed algorithm */
-    if (g_state.rank != proc)
-#endif
-    {
+    /* if not a strided get from self or from the same SMP node, use packed algorithm */
+    if ((!ENABLE_GET_SELF || g_state.rank != proc)
+            && (!ENABLE_GET_SMP
+                || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
         nb_gets_packed(src, src_stride, dst, dst_stride, count, stride_levels, proc, nb);
         return;
     }
@@ -4850,11 +4848,10 @@ STATIC void nb_accs(
     }
 
 #if ENABLE_ACC_PACKED
-#if ENABLE_ACC_SELF
-    /* if not a strided acc to self, use packed algorithm */
-    if (g_state.rank != proc)
-#endif
-    {
+    /* if not a strided acc to self or to the same SMP node, use packed algorithm */
+    if ((!ENABLE_ACC_SELF || g_state.rank != proc)
+            && (!ENABLE_ACC_SMP
+                || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
         nb_accs_packed(datatype, scale, src, src_stride, dst, dst_stride, count, stride_levels, proc, nb);
         return;
     }
@@ -5031,7 +5028,9 @@ STATIC void nb_putv(
 
     for (i=0; i<iov_len; ++i) {
         /* if not a vector put to self, use packed algorithm */
-        if (ENABLE_PUT_IOV && (!ENABLE_PUT_SELF || g_state.rank != proc)) {
+        if (ENABLE_PUT_IOV && (!ENABLE_PUT_SELF || g_state.rank != proc)
+                && (!ENABLE_PUT_SMP
+                    || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
             nb_putv_packed(&iov[i], proc, nb);
         }
         else {
@@ -5132,7 +5131,9 @@ STATIC void nb_getv(
 
     for (i=0; i<iov_len; ++i) {
         /* if not a vector get from self, use packed algorithm */
-        if (ENABLE_GET_IOV && (!ENABLE_GET_SELF || g_state.rank != proc)) {
+        if (ENABLE_GET_IOV && (!ENABLE_GET_SELF || g_state.rank != proc)
+                && (!ENABLE_GET_SMP
+                    || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
             nb_getv_packed(&iov[i], proc, nb);
         }
         else {
@@ -5242,7 +5243,9 @@ STATIC void nb_accv(
 
     for (i=0; i<iov_len; ++i) {
         /* if not a vector acc to self, use packed algorithm */
-        if (ENABLE_ACC_IOV && (!ENABLE_ACC_SELF || g_state.rank != proc)) {
+        if (ENABLE_ACC_IOV && (!ENABLE_ACC_SELF || g_state.rank != proc)
+                && (!ENABLE_ACC_SMP
+                    || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
             nb_accv_packed(datatype, scale, &iov[i], proc, nb);
         }
         else {
-- 
2.43.0


From cc1e0e94bf94932e3a3c4a58174938a715f5d4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 006/107] fix: mpi3 comex_nbaccs computed the imaginary parts
 of scaled complex data from overwritten values

---
 comex/src-mpi3/comex.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index a5976a1..fe0a1cf 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -2679,9 +2679,11 @@ int comex_nbaccs(
       float ciscale = *((float*)scale+1);
       int nvar = bufsize/(2*sizeof(float));
       buf = (float*)packbuf;
+      float tmp;
       for (i=0; i<nvar; i++) {
+        tmp = buf[2*i];
         buf[2*i] = crscale*buf[2*i]-ciscale*buf[2*i+1];
-        buf[2*i+1] = ciscale*buf[2*i]+crscale*buf[2*i+1];
+        buf[2*i+1] = ciscale*tmp+crscale*buf[2*i+1];
       }
       new_count[0] = new_count[0]/sizeof(float);
       strided_to_subarray_dtype(new_strides, new_count, stride_levels,
@@ -2694,9 +2696,11 @@ int comex_nbaccs(
       double ciscale = *((double*)scale+1);
       int nvar = bufsize/(2*sizeof(double));
       buf = (double*)packbuf;
+      double tmp;
       for (i=0; i<nvar; i++) {
+        tmp = buf[2*i];
         buf[2*i] = crscale*buf[2*i]-ciscale*buf[2*i+1];
-        buf[2*i+1] = ciscale*buf[2*i]+crscale*buf[2*i+1];
+        buf[2*i+1] = ciscale*tmp+crscale*buf[2*i+1];
       }
       new_count[0] = new_count[0]/sizeof(double);
       strided_to_subarray_dtype(new_strides, new_count, stride_levels,
-- 
2.43.0


From fb7b2145681a6ff33c703e91d9767150d3de36e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 007/107] fix: mpi3 non-blocking accumulates freed their origin
 buffer before local completion

---
 comex/src-mpi3/comex.c | 59 ++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index fe0a1cf..201f297 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -2239,6 +2239,25 @@ int comex_nbget(
 }
 
 
+/**
+ * The origin buffer of a non-blocking accumulate may only be released after
+ * the operation has completed locally.
+ */
+static void nb_acc_release(nb_t *req, void *buf)
+{
+  int ierr;
+#ifdef USE_MPI_FLUSH_LOCAL
+  ierr = MPI_Win_flush_local(req->remote_proc, req->win);
+  translate_mpi_error(ierr,"nb_acc_release:MPI_Win_flush_local");
+#else
+  MPI_Status status;
+  ierr = MPI_Wait(&(req->request), &status);
+  translate_mpi_error(ierr,"nb_acc_release:MPI_Wait");
+#endif
+  free(buf);
+}
+
+
 int comex_nbacc(
         int datatype, void *scale,
         void *src_ptr, void *dst_ptr, int bytes,
@@ -2286,17 +2305,17 @@ int comex_nbacc(
       ierr = MPI_Accumulate(buf,count,MPI_INT,lproc,displ,count,
           MPI_INT,MPI_SUM,reg_win->win);
       translate_mpi_error(ierr,"comex_nbacc:MPI_Accumulate");
-      req->remote_proc = lproc;
-      req->win = reg_win->win;
 #else
       ierr = MPI_Raccumulate(buf,count,MPI_INT,lproc,displ,count,
           MPI_INT,MPI_SUM,reg_win->win,&request);
       translate_mpi_error(ierr,"comex_nbacc:MPI_Raccumulate");
 #endif
+      req->remote_proc = lproc;
+      req->win = reg_win->win;
       req->request = request;
       req->use_type = 0;
       req->active = 1;
-      free(buf);
+      nb_acc_release(req, buf);
     } else if (datatype == COMEX_ACC_LNG) {
       long *buf;
       long *lsrc = (long*)src_ptr;
@@ -2310,17 +2329,17 @@ int comex_nbacc(
       ierr = MPI_Accumulate(buf,count,MPI_LONG,lproc,displ,count,
           MPI_LONG,MPI_SUM,reg_win->win);
       translate_mpi_error(ierr,"comex_nbacc:MPI_Accumulate");
-      req->remote_proc = lproc;
-      req->win = reg_win->win;
 #else
       ierr = MPI_Raccumulate(buf,count,MPI_LONG,lproc,displ,count,
           MPI_LONG,MPI_SUM,reg_win->win,&request);
       translate_mpi_error(ierr,"comex_nbacc:MPI_Raccumulate");
 #endif
+      req->remote_proc = lproc;
+      req->win = reg_win->win;
       req->request = request;
       req->use_type = 0;
       req->active = 1;
-      free(buf);
+      nb_acc_release(req, buf);
     } else if (datatype == COMEX_ACC_FLT) {
       float *buf;
       float *fsrc = (float*)src_ptr;
@@ -2334,17 +2353,17 @@ int comex_nbacc(
       ierr = MPI_Accumulate(buf,count,MPI_FLOAT,lproc,displ,count,
           MPI_FLOAT,MPI_SUM,reg_win->win);
       translate_mpi_error(ierr,"comex_nbacc:MPI_Accumulate");
-      req->remote_proc = lproc;
-      req->win = reg_win->win;
 #else
       ierr = MPI_Raccumulate(buf,count,MPI_FLOAT,lproc,displ,count,
           MPI_FLOAT,MPI_SUM,reg_win->win,&request);
       translate_mpi_error(ierr,"comex_nbacc:MPI_Raccumulate");
 #endif
+      req->remote_proc = lproc;
+      req->win = reg_win->win;
       req->request = request;
       req->use_type = 0;
       req->active = 1;
-      free(buf);
+      nb_acc_release(req, buf);
     } else if (datatype == COMEX_ACC_DBL) {
       double *buf;
       double *dsrc = (double*)src_ptr;
@@ -2358,17 +2377,17 @@ int comex_nbacc(
       ierr = MPI_Accumulate(buf,count,MPI_DOUBLE,lproc,displ,count,
           MPI_DOUBLE,MPI_SUM,reg_win->win);
       translate_mpi_error(ierr,"comex_nbacc:MPI_Accumulate");
-      req->remote_proc = lproc;
-      req->win = reg_win->win;
 #else
       ierr = MPI_Raccumulate(buf,count,MPI_DOUBLE,lproc,displ,count,
           MPI_DOUBLE,MPI_SUM,reg_win->win,&request);
       translate_mpi_error(ierr,"comex_nbacc:MPI_Raccumulate");
 #endif
+      req->remote_proc = lproc;
+      req->win = reg_win->win;
       req->request = request;
       req->use_type = 0;
       req->active = 1;
-      free(buf);
+      nb_acc_release(req, buf);
     } else if (datatype == COMEX_ACC_CPL) {
       int cnum;
       float *buf;
@@ -2386,17 +2405,17 @@ int comex_nbacc(
       ierr = MPI_Accumulate(buf,count,MPI_FLOAT,lproc,displ,count,
           MPI_FLOAT,MPI_SUM,reg_win->win);
       translate_mpi_error(ierr,"comex_nbacc:MPI_Accumulate");
-      req->remote_proc = lproc;
-      req->win = reg_win->win;
 #else
       ierr = MPI_Raccumulate(buf,count,MPI_FLOAT,lproc,displ,count,
           MPI_FLOAT,MPI_SUM,reg_win->win,&request);
       translate_mpi_error(ierr,"comex_nbacc:MPI_Raccumulate");
 #endif
+      req->remote_proc = lproc;
+      req->win = reg_win->win;
       req->request = request;
       req->use_type = 0;
       req->active = 1;
-      free(buf);
+      nb_acc_release(req, buf);
     } else if (datatype == COMEX_ACC_DCP) {
       int cnum;
       double *buf;
@@ -2414,17 +2433,17 @@ int comex_nbacc(
       ierr = MPI_Accumulate(buf,count,MPI_DOUBLE,lproc,displ,count,
           MPI_DOUBLE,MPI_SUM,reg_win->win);
       translate_mpi_error(ierr,"comex_nbacc:MPI_Accumulate");
-      req->remote_proc = lproc;
-      req->win = reg_win->win;
 #else
       ierr = MPI_Raccumulate(buf,count,MPI_DOUBLE,lproc,displ,count,
           MPI_DOUBLE,MPI_SUM,reg_win->win,&request);
       translate_mpi_error(ierr,"comex_nbacc:MPI_Raccumulate");
 #endif
+      req->remote_proc = lproc;
+      req->win = reg_win->win;
       req->request = request;
       req->use_type = 0;
       req->active = 1;
-      free(buf);
+      nb_acc_release(req, buf);
     } else {
       assert(0);
     }
@@ -2737,7 +2756,7 @@ int comex_nbaccs(
     req->remote_proc = lproc;
     req->win = reg_win->win;
     req->active = 1;
-    free(packbuf);
+    nb_acc_release(req, packbuf);
 
     return COMEX_SUCCESS;
 #else
@@ -2959,7 +2978,7 @@ int comex_nbaccv(
     req->remote_proc = lproc;
     req->win = reg_win->win;
     req->active = 1;
-    free(src_ptr);
+    nb_acc_release(req, src_ptr);
     return COMEX_SUCCESS;
 #else
     return comex_accv(datatype, scale, iov, iov_len, proc, group);
-- 
2.43.0


From f0c5136cfae2b89035f5f277cfa6891a8611599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 008/107] fix: mpi3 vector accumulates used only the first
 element of each segment

---
 comex/src-mpi3/comex.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 201f297..335a471 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -1598,7 +1598,30 @@ void* create_vector_buf_and_dtypes(void *dst_ptr,
   MPI_Aint *displacements;
   MPI_Datatype *types;
   MPI_Aint displ;
+  comex_giov_t elems;
+  int k;
   MPI_Type_size(base_type,&size);
+  /* a segment may hold several elements: list every element separately */
+  nelems = 0;
+  for (i=0; i<iov_len; i++) {
+    nelems += iov[i].count*(iov[i].bytes/comex_size);
+  }
+  elems.count = nelems;
+  elems.bytes = comex_size;
+  elems.src = (void**)malloc(nelems*sizeof(void*));
+  elems.dst = (void**)malloc(nelems*sizeof(void*));
+  icnt = 0;
+  for (i=0; i<iov_len; i++) {
+    for (j=0; j<iov[i].count; j++) {
+      for (k=0; k<iov[i].bytes/comex_size; k++) {
+        elems.src[icnt] = (char*)(iov[i].src[j])+k*comex_size;
+        elems.dst[icnt] = (char*)(iov[i].dst[j])+k*comex_size;
+        icnt++;
+      }
+    }
+  }
+  iov = &elems;
+  iov_len = 1;
   /* find total number of elements */
   nelems = 0;
   for (i=0; i<iov_len; i++) {
@@ -1785,6 +1808,8 @@ void* create_vector_buf_and_dtypes(void *dst_ptr,
   ierr = MPI_Type_create_struct(nelems, blocklengths, displacements, types,
       dst_type);
   translate_mpi_error(ierr,"create_vector_buf_and_dtypes:MPI_Type_create_struct");
+  free(elems.src);
+  free(elems.dst);
   return src_buf;
 }
 
-- 
2.43.0


From 609e5e7095ededba3db9ae954b23ee85a7fd3614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 009/107] fix: mpi3 blocking operations on one target were left
 unordered

---
 comex/src-mpi3/comex.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 335a471..5598206 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -30,8 +30,9 @@
 
 /*
 #define USE_PRIOR_MPI_WIN_FLUSH
-#define USE_POST_MPI_WIN_FLUSH
 */
+/* MPI does not order puts, gets and accumulates to the same target */
+#define USE_POST_MPI_WIN_FLUSH
 
 /*
 */
@@ -2196,13 +2197,13 @@ int comex_nbput(
     ierr = MPI_Put(src, bytes, MPI_CHAR, lproc, displ, bytes, MPI_CHAR,
         reg_win->win);
     translate_mpi_error(ierr,"comex_nbput:MPI_Put");
-    req->remote_proc = lproc;
-    req->win = reg_win->win;
 #else
     ierr = MPI_Rput(src, bytes, MPI_CHAR, lproc, displ, bytes, MPI_CHAR,
         reg_win->win, &request);
     translate_mpi_error(ierr,"comex_nbput:MPI_Rput");
 #endif
+    req->remote_proc = lproc;
+    req->win = reg_win->win;
     req->request = request;
     req->use_type = 0;
     req->active = 1;
@@ -2247,13 +2248,13 @@ int comex_nbget(
     ierr = MPI_Get(dst, bytes, MPI_CHAR, lproc, displ, bytes, MPI_CHAR,
         reg_win->win);
     translate_mpi_error(ierr,"comex_nbget:MPI_Get");
-    req->remote_proc = lproc;
-    req->win = reg_win->win;
 #else
     ierr = MPI_Rget(dst, bytes, MPI_CHAR, lproc, displ, bytes, MPI_CHAR,
         reg_win->win, &request);
     translate_mpi_error(ierr,"comex_nbget:MPI_Rget");
 #endif
+    req->remote_proc = lproc;
+    req->win = reg_win->win;
     req->request = request;
     req->use_type = 0;
     req->active = 1;
-- 
2.43.0


From d3a10c7cb7e4d7bcd4e1dab827addbff24a26fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 010/107] fix: mpi-mt and mpi-pt comex_test never completed a
 pending request

---
 comex/src-mpi-mt/comex.c | 22 ++++++++++++++++++++++
 comex/src-mpi-pt/comex.c | 22 ++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/comex/src-mpi-mt/comex.c b/comex/src-mpi-mt/comex.c
index 879c7b7..1142312 100644
--- a/comex/src-mpi-mt/comex.c
+++ b/comex/src-mpi-mt/comex.c
@@ -954,6 +954,28 @@ int comex_test(comex_request_t* hdl, int *status)
                 g_state.rank);
     }
 
+    /* retire the messages that have completed since the last call */
+    while (NULL != nb->send_head) {
+        int flag = 0;
+        int retval = MPI_Test(&(nb->send_head->request), &flag,
+                MPI_STATUS_IGNORE);
+        CHECK_MPI_RETVAL(retval);
+        if (!flag) {
+            break;
+        }
+        nb_wait_for_send1(nb);
+    }
+    while (NULL != nb->recv_head) {
+        int flag = 0;
+        int retval = MPI_Test(&(nb->recv_head->request), &flag,
+                MPI_STATUS_IGNORE);
+        CHECK_MPI_RETVAL(retval);
+        if (!flag) {
+            break;
+        }
+        nb_wait_for_recv1(nb);
+    }
+
     if (NULL == nb->send_head && NULL == nb->recv_head) {
         COMEX_ASSERT(0 == nb->send_size);
         COMEX_ASSERT(0 == nb->recv_size);
diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index ffc3172..58d9a78 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -1359,6 +1359,28 @@ int comex_test(comex_request_t* hdl, int *status)
                 g_state.rank);
     }
 
+    /* retire the messages that have completed since the last call */
+    while (NULL != nb->send_head) {
+        int flag = 0;
+        int retval = MPI_Test(&(nb->send_head->request), &flag,
+                MPI_STATUS_IGNORE);
+        CHECK_MPI_RETVAL(retval);
+        if (!flag) {
+            break;
+        }
+        nb_wait_for_send1(nb);
+    }
+    while (NULL != nb->recv_head) {
+        int flag = 0;
+        int retval = MPI_Test(&(nb->recv_head->request), &flag,
+                MPI_STATUS_IGNORE);
+        CHECK_MPI_RETVAL(retval);
+        if (!flag) {
+            break;
+        }
+        nb_wait_for_recv1(nb);
+    }
+
     if (NULL == nb->send_head && NULL == nb->recv_head) {
         COMEX_ASSERT(0 == nb->send_size);
         COMEX_ASSERT(0 == nb->recv_size);
-- 
2.43.0


From cb42ce3236173a8a06634d6cd10a348e50877592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 011/107] fix: mpi3 comex_wait_proc aborted

---
 comex/src-mpi3/comex.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 5598206..b43e9b6 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -2056,9 +2056,7 @@ int comex_finalize()
 
 int comex_wait_proc(int proc, comex_group_t group)
 {
-    assert(0);
-
-    return COMEX_SUCCESS;
+    return comex_wait_all(group);
 }
 
 
-- 
2.43.0


From e40c0f00efe05b1d35325dfc33f1acd7ac10aad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 012/107] fix: locate_region, locate_nnodes and
 locate_num_blocks were wrong for block distributions

Blocks that contain the whole requested range in a dimension were missed, the
block index of ScaLAPACK and tiled arrays was computed with the wrong factors,
and the pieces were not clipped to the requested region.
---
 global/src/base.c | 40 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 3a9be8d..5ba95dd 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4629,11 +4629,9 @@ logical pnga_locate_nnodes( Integer g_a,
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the interval represented by tlo and thi and the
+         * interval represented by lo and hi have an index in common */
+        if (tlo[j] > hi[j] || thi[j] < lo[j]) {
           chk = 0;
         }
       }
@@ -4820,11 +4818,9 @@ logical pnga_locate_region( Integer g_a,
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the interval represented by tlo and thi and the
+         * interval represented by lo and hi have an index in common */
+        if (tlo[j] > hi[j] || thi[j] < lo[j]) {
           chk = 0;
         }
       }
@@ -4862,23 +4858,17 @@ logical pnga_locate_region( Integer g_a,
     }
     while (count[ndim-1]<=max[ndim-1]) {
       /* Calculate block index */
-      Integer idx = 0;
-      Integer factor = 1;
-      Integer iproc;
-      Integer p_handle = GA[ga_handle].p_handle;
-      Integer size = pnga_pgroup_nnodes(p_handle);
-      for (i=ndim-1; i>=0; i--) {
-        idx = idx*factor+count[i];
-        factor *= GA[ga_handle].num_blocks[i];
-      }
+      Integer idx;
+      gam_find_block_from_indices(ga_handle,idx,count);
       proclist[cnt] = idx;
       /* store information on this block */
       offset = 2*cnt*ndim;
       for (i=0; i<ndim; i++) {
         map[offset+i] = count[i]*GA[ga_handle].block_dims[i]+1;
         map[offset+ndim+i] = (count[i]+1)*GA[ga_handle].block_dims[i];
-        if (map[offset+ndim+i] > GA[ga_handle].dims[i])
-          map[offset+ndim+i] = GA[ga_handle].dims[i];
+        /* keep only the part of the block inside the requested region */
+        if (map[offset+i] < lo[i]) map[offset+i] = lo[i];
+        if (map[offset+ndim+i] > hi[i]) map[offset+ndim+i] = hi[i];
       }
       cnt++;
       /* Increment count array */
@@ -5610,11 +5600,9 @@ Integer pnga_locate_num_blocks(Integer g_a, Integer *lo, Integer *hi)
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the interval represented by tlo and thi and the
+         * interval represented by lo and hi have an index in common */
+        if (tlo[j] > hi[j] || thi[j] < lo[j]) {
           chk = 0;
         }
       }
-- 
2.43.0


From 298354a9ee7e229d968a4ac3e4ca993db9cb863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 013/107] fix: block offsets of tiled arrays were wrong unless
 the process grid was 2 wide

The number of blocks held by a process and the index of a block among them were
computed with a rounding that is right only for process grid dimensions of 2.
---
 global/src/onesided.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index e941da7..f39ebb6 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1679,16 +1679,15 @@ void pnga_access_block_grid_ptr(Integer g_a, Integer *index, void* ptr, Integer
       lo = 0;
       hi = -1;
       */
-      block_idx[i] = (index[i]-proc_index[i]+1)/proc_grid[i];
-      ldim = (num_blocks[i]-proc_index[i]+1)/proc_grid[i];
-      if ((num_blocks[i]-proc_index[i]+1)%proc_grid[i] == 0) {
-        if (dims[i]%block_dims[i] != 0) {
-          lld[i] = (ldim-1)*block_dims[i] + dims[i]%block_dims[i];
-        } else {
-          lld[i] = ldim*block_dims[i];
-        }
+      block_idx[i] = (index[i]-proc_index[i])/proc_grid[i];
+      /* number of blocks on this processor along dimension i */
+      ldim = (num_blocks[i]-proc_index[i]+proc_grid[i]-1)/proc_grid[i];
+      if ((num_blocks[i]-1)%proc_grid[i] == proc_index[i]
+          && dims[i]%block_dims[i] != 0) {
+        /* the last of them is a partial block */
+        lld[i] = (ldim-1)*block_dims[i] + dims[i]%block_dims[i];
       } else {
-        lld[i] = ldim *block_dims[i];
+        lld[i] = ldim*block_dims[i];
       }
       block_count[i] = ldim;
       /*
-- 
2.43.0


From 95f853fe45e72638b458ce1b46de80617ef19311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 014/107] fix: transfers on block distributions read and wrote
 nonexistent blocks

A process that owns no block (fewer blocks than processes in some dimension)
was treated as holding the first part of the patch, because an empty block
was considered to overlap it.
---
 global/src/iterator.c | 42 ++++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index 896dd55..3e51c17 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -461,7 +461,6 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
     Integer blk_tot = GA[handle].block_total;
     Integer blo[MAXDIM], bhi[MAXDIM];
     Integer idx, j, jtot, chk, iproc;
-    int check1, check2;
     if (n_rstrctd > 0) nproc = n_rstrctd;
     if (GA[handle].distr_type == BLOCK_CYCLIC) {
       /* Simple block-cyclic distribution */
@@ -476,20 +475,12 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
         ga_ownsM(handle,idx,blo,bhi);
         /* check to see if this block overlaps with requested block
          * defined by lo and hi */
-        chk = 1;
+        chk = (idx < blk_tot);  /* processors may own no block at all */
         for (j=0; j<ndim; j++) {
-          /* check to see if at least one end point of the interval
-           * represented by blo and bhi falls in the interval
-           * represented by lo and hi */
-          check1 = ((blo[j] >= hdl->lo[j] && blo[j] <= hdl->hi[j]) ||
-              (bhi[j] >= hdl->lo[j] && bhi[j] <= hdl->hi[j]));
-          /* check to see if interval represented by lo and hi
-           * falls entirely within interval represented by blo and bhi */
-          check2 = ((hdl->lo[j] >= blo[j] && hdl->lo[j] <= bhi[j]) &&
-              (hdl->hi[j] >= blo[j] && hdl->hi[j] <= bhi[j]));
-          /* If there is some data, move to the next section of code,
-           * otherwise, check next block */
-          if (!check1 && !check2) {
+          /* check to see if the interval represented by blo and bhi and the
+           * interval represented by lo and hi have an index in common. If
+           * not, check next block */
+          if (blo[j] > hdl->hi[j] || bhi[j] < hdl->lo[j]) {
             chk = 0;
           }
         }
@@ -581,6 +572,13 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
         } else {
           offset = 0;
           for (j = 0; j < ndim; j++) {
+            if (hdl->index[j] >= GA[handle].num_blocks[j]) {
+              /* no such block */
+              blo[j] = GA[handle].dims[j]+1;
+              bhi[j] = GA[handle].dims[j];
+              offset += GA[handle].num_blocks[j];
+              continue;
+            }
             blo[j] = GA[handle].mapc[offset+hdl->index[j]];
             if (hdl->index[j] == GA[handle].num_blocks[j]-1) {
               bhi[j] = GA[handle].dims[j];
@@ -594,18 +592,10 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
          * defined by lo and hi */
         chk = 1;
         for (j=0; j<ndim; j++) {
-          /* check to see if at least one end point of the interval
-           * represented by blo and bhi falls in the interval
-           * represented by lo and hi */
-          check1 = ((blo[j] >= hdl->lo[j] && blo[j] <= hdl->hi[j]) ||
-              (bhi[j] >= hdl->lo[j] && bhi[j] <= hdl->hi[j]));
-          /* check to see if interval represented by lo and hi
-           * falls entirely within interval represented by blo and bhi */
-          check2 = ((hdl->lo[j] >= blo[j] && hdl->lo[j] <= bhi[j]) &&
-              (hdl->hi[j] >= blo[j] && hdl->hi[j] <= bhi[j]));
-          /* If there is some data, move to the next section of code,
-           * otherwise, check next block */
-          if (!check1 && !check2) {
+          /* check to see if the interval represented by blo and bhi and the
+           * interval represented by lo and hi have an index in common. If
+           * not, check next block */
+          if (blo[j] > hdl->hi[j] || bhi[j] < hdl->lo[j]) {
             chk = 0;
           }
         }
-- 
2.43.0


From d2fd73f0f575e97fe7f83022230177be3cf464dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 015/107] fix: field transfers used local leading dimensions
 one too large

---
 global/src/capi.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index b0aee49..c2ba2c2 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -5290,7 +5290,7 @@ void NGA_Get_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_get_field(a, _alo, _ahi, foff, fsize, buf, _ld);
 }
@@ -5303,7 +5303,7 @@ void NGA_Nbget_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_nbget_field(a, _alo, _ahi, foff, fsize, buf, _ld, (Integer*)nbhandle);
 }
@@ -5316,7 +5316,7 @@ void NGA_Nbput_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_nbput_field(a, _alo, _ahi, foff, fsize, buf, _ld, (Integer*)nbhandle);
 }
@@ -5329,7 +5329,7 @@ void NGA_Put_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_put_field(a, _alo, _ahi, foff, fsize, buf, _ld);
 }
-- 
2.43.0


From 46c21888b0c0005f0932bc5092bf6059ac2495a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 016/107] fix: unset_property of a read-only array lost data
 (scale, sizes, missing sync)

---
 global/src/base.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/global/src/base.c b/global/src/base.c
index 5ba95dd..f9cfbc6 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2371,6 +2371,8 @@ void pnga_unset_property(Integer g_a) {
       pnga_access_ptr(g_tmp,lo,hi,&ptr,ld);
       pnga_get(g_a,lo,hi,ptr,ld);
     }
+    /* nobody may still be reading the memory that is freed below */
+    pnga_pgroup_sync(GA[ga_handle].old_handle);
 
     /* Get rid of current memory allocation */
 #ifndef AVOID_MA_STORAGE
@@ -2412,6 +2414,12 @@ void pnga_unset_property(Integer g_a) {
       GA[ga_handle].mapc[i] = GA[ga_handle].old_mapc[i];
     }
     free(GA[ga_handle].old_mapc);
+    for (i=0; i<ndim; i++) {
+      GA[ga_handle].scale[i] = (double)GA[ga_handle].nblock[i]
+        / (double)GA[ga_handle].dims[i];
+    }
+    /* the original distribution is in effect again */
+    GA[ga_handle].property = NO_PROPERTY;
 
     pnga_distribution(g_a, grp_me, GA[ga_handle].lo, hi);
     chk = 1;
@@ -2456,7 +2464,6 @@ void pnga_unset_property(Integer g_a) {
     /* Generate parameters for new memory allocation. Distribution function
      * should work, so we can use that to find out how much data is on this
      * processor */
-    GA[ga_handle].property = NO_PROPERTY;
     pnga_distribution(g_a,GAme,lo,hi);
     chk = 1;
     nelem = 1;
-- 
2.43.0


From fbf83e7b779ecb2e2870070248306ec4bc0b1fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 017/107] fix: transfers of out-of-range patches of block
 distributions were executed

---
 global/src/iterator.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index 3e51c17..ce963d8 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -203,6 +203,14 @@ void gai_iterator_init(Integer g_a, Integer lo[], Integer hi[],
     hdl->lo[i] = lo[i];
     hdl->hi[i] = hi[i];
   }
+  /* Block distributions are scanned without locating the patch first, so
+   * that an invalid patch has to be detected here */
+  if (GA[handle].distr_type != REGULAR) {
+    for (i=0; i<ndim; i++) {
+      if (lo[i] < 1 || hi[i] > GA[handle].dims[i] || lo[i] > hi[i])
+        ga_RegionError(pnga_ndim(g_a), lo, hi, g_a);
+    }
+  }
   /* Standard GA distribution */
   if (GA[handle].distr_type == REGULAR) {
     /* Locate the processors containing some portion of the patch
-- 
2.43.0


From f4cef2154da25d61785db50c0fcaa76e89d622d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 018/107] fix: locate accepted subscripts outside a block
 distribution

---
 global/src/base.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index f9cfbc6..12c40ac 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -796,10 +796,10 @@ Integer d, proc, dpos, ndim, ga_handle = GA_OFFSET + g_a, proc_s[MAXDIM];
    ga_check_handleM(g_a, "nga_locate");
    ndim = GA[ga_handle].ndim;
 
-   if (GA[ga_handle].distr_type == REGULAR) {
-     for(d=0, *owner=-1; d< ndim; d++) 
-       if(subscript[d]< 1 || subscript[d]>GA[ga_handle].dims[d]) return FALSE;
+   for(d=0, *owner=-1; d< ndim; d++) 
+     if(subscript[d]< 1 || subscript[d]>GA[ga_handle].dims[d]) return FALSE;
 
+   if (GA[ga_handle].distr_type == REGULAR) {
      for(d = 0, dpos = 0; d< ndim; d++){
        findblock(GA[ga_handle].mapc + dpos, GA[ga_handle].nblock[d],
            GA[ga_handle].scale[d], subscript[d], &proc_s[d]);
-- 
2.43.0


From 2cf6df3540da2edf1714002a84e4bd6cefab1866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 019/107] fix: gather64, scatter64 and scatter_acc64 read
 64-bit subscripts as 32-bit ones

---
 global/src/capi.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index c2ba2c2..8b69870 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -3070,7 +3070,6 @@ void NGA_Scatter64(int g_a, void *v, int64_t* subsArray[], int64_t n)
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3080,9 +3079,6 @@ void NGA_Scatter64(int g_a, void *v, int64_t* subsArray[], int64_t n)
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_scatter(a, v, _subs_array, 0, nv);
     free(_subs_array);
-#else
-    wnga_scatter(a, v, subsArray, 1, nv);
-#endif
 }
 
 void NGA_Scatter_flat64(int g_a, void *v, int64_t subsArray[], int64_t n)
@@ -3152,7 +3148,6 @@ void NGA_Scatter_acc64(int g_a, void *v, int64_t* subsArray[], int64_t n, void *
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3162,9 +3157,6 @@ void NGA_Scatter_acc64(int g_a, void *v, int64_t* subsArray[], int64_t n, void *
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_scatter_acc(a, v, _subs_array, 0, nv, alpha);
     free(_subs_array);
-#else
-    wnga_scatter_acc(a, v, subsArray, 1, nv, alpha);
-#endif
 }
 
 void NGA_Scatter_acc_flat64(int g_a, void *v, int64_t subsArray[], int64_t n, void *alpha)
@@ -3237,7 +3229,6 @@ void NGA_Gather64(int g_a, void *v, int64_t* subsArray[], int64_t n)
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3249,9 +3240,6 @@ void NGA_Gather64(int g_a, void *v, int64_t* subsArray[], int64_t n)
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_gather(a, v, _subs_array, 0, nv);
     free(_subs_array);
-#else
-    wnga_gather(a, v, subsArray, 1, nv);
-#endif
 }
 
 
-- 
2.43.0


From a8221b6bc50aab475b8fa87f94b901a11c94b03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 020/107] fix: strided access to block-cyclic arrays skipped
 blocks of lower ranks

---
 global/src/iterator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index ce963d8..d8f098b 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -230,7 +230,8 @@ void gai_iterator_init(Integer g_a, Integer lo[], Integer hi[],
   } else if (GA[handle].distr_type == BLOCK_CYCLIC) {
     /* GA uses simple block cyclic data distribution */
     hdl->iproc = 0;
-    hdl->iblock = pnga_nodeid();
+    hdl->iblock = 0;
+    hdl->offset = 0;
   } else if (GA[handle].distr_type == SCALAPACK)  {
     /* GA uses ScaLAPACK block cyclic data distribution */
     int j;
-- 
2.43.0


From bd64a2e7655ca2fd2c3e115e7b6b6a2520e10e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 021/107] fix: strided access to arrays of more than two
 dimensions misplaced the local data

---
 global/src/onesided.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index f39ebb6..50114b5 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -4183,8 +4183,9 @@ void gai_ComputePatchIndexWithSkip(Integer ndim, Integer *lo, Integer *plo,
   delta -= inc;
   delta /=  skip[0];
   *idx_buf = delta;
+  factor = 1;
   for (i=0; i<ndim-1; i++) {
-    factor = ld[i];
+    factor *= ld[i];
     delta = plo[i+1]-lo[i+1];
     inc = delta%skip[i+1];
     delta -= inc;
-- 
2.43.0


From 62824c7392d5242e43b7b9d4d9c8aff2bc734755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 022/107] fix: strided access to arrays on groups translated
 ranks twice

---
 global/src/onesided.c | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 50114b5..6ec7113 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -4232,7 +4232,7 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
      buf[]:  Local buffer that patch will be copied from
      ld[]:   ndim-1 physical dimensions of local buffer */
   Integer p, np=0, handle = GA_OFFSET + g_a;
-  Integer idx, size, nstride, p_handle, nproc;
+  Integer idx, size, nstride, nproc;
   Integer ldrem[MAXDIM];
   Integer idx_buf, *blo, *bhi;
   Integer plo[MAXDIM],phi[MAXDIM];
@@ -4244,7 +4244,6 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
   size = GA[handle].elemsize;
   ndim = GA[handle].ndim;
   nproc = pnga_nnodes();
-  p_handle = GA[handle].p_handle;
 
   /* check values of skips to make sure they are legitimate */
   for (i = 0; i<ndim; i++) {
@@ -4286,10 +4285,7 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
+      /* the iterator returns world ranks */
       ARMCI_PutS(pbuf, stride_loc, prem, stride_rem, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
@@ -4312,7 +4308,7 @@ void pnga_strided_get(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
      buf[]:  Local buffer that patch will be copied from
      ld[]:   ndim-1 physical dimensions of local buffer */
   Integer p, np=0, handle = GA_OFFSET + g_a;
-  Integer idx, size, nstride, p_handle, nproc;
+  Integer idx, size, nstride, nproc;
   int i, proc, ndim;
   Integer ldrem[MAXDIM];
   Integer idx_buf, *blo, *bhi;
@@ -4324,7 +4320,6 @@ void pnga_strided_get(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
   size = GA[handle].elemsize;
   ndim = GA[handle].ndim;
   nproc = pnga_nnodes();
-  p_handle = GA[handle].p_handle;
 
   /* check values of skips to make sure they are legitimate */
   for (i = 0; i<ndim; i++) {
@@ -4366,10 +4361,7 @@ void pnga_strided_get(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
+      /* the iterator returns world ranks */
       ARMCI_GetS(prem, stride_rem, pbuf, stride_loc, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
@@ -4395,7 +4387,7 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
      ld[]:   ndim-1 physical dimensions of local buffer
      alpha:  muliplicative scale factor */
   Integer p, np=0, handle = GA_OFFSET + g_a;
-  Integer idx, size, nstride, type, p_handle, nproc;
+  Integer idx, size, nstride, type, nproc;
   int i, optype=-1, proc, ndim;
   Integer ldrem[MAXDIM];
   Integer idx_buf, *blo, *bhi;
@@ -4408,7 +4400,6 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
   ndim = GA[handle].ndim;
   type = GA[handle].type;
   nproc = pnga_nnodes();
-  p_handle = GA[handle].p_handle;
 
   if (type == C_DBL) optype = ARMCI_ACC_DBL;
   else if (type == C_FLOAT) optype = ARMCI_ACC_FLT;
@@ -4458,10 +4449,7 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
+      /* the iterator returns world ranks */
       ARMCI_AccS(optype, alpha, pbuf, stride_loc, prem, stride_rem, count,
           nstride-1, proc);
   }
-- 
2.43.0


From 679edda48d357201e3d11e78ab1e35e3f00fb4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 023/107] fix: gather and scatter on restricted arrays of a
 group addressed wrong processes

---
 global/src/onesided.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 6ec7113..3387955 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -3532,11 +3532,10 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
         if (num_rstrctd > 0) {
           tproc = GA[handle].rstrctd_list[iproc];
         } else {
-          if (p_handle < 0) {
-            tproc = iproc;
-          } else {
-            tproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
-          }
+          tproc = iproc;
+        }
+        if (p_handle >= 0) {
+          tproc = PGRP_LIST[p_handle].inv_map_proc_list[tproc];
         }
         /* perform vector operation */
         switch(op) { 
-- 
2.43.0


From a41397caf38fa72de7f0451587af7207da0017d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 024/107] fix: get from a read-cache array ignored the leading
 dimensions on a hit

---
 global/src/onesided.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 3387955..048438b 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1229,7 +1229,7 @@ void pnga_get(Integer g_a, Integer *lo, Integer *hi,
           }
           /* copy data to recieve buffer */
           gai_mem_copy(GA[handle].elemsize,ndim,temp_buf,nstart,ncount,nld,buf,
-              bstart, ncount /*ld*/);
+              bstart, ld);
           match = 1;
           break;
         }
-- 
2.43.0


From b9268335c6711784cb9a90b2112237126bbe0c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 025/107] fix: unset_property left the read-cache property set

---
 global/src/base.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/base.c b/global/src/base.c
index 12c40ac..4411ed1 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2504,6 +2504,7 @@ void pnga_unset_property(Integer g_a) {
       }
     }
     GA[ga_handle].cache_head = NULL;
+    GA[ga_handle].property = NO_PROPERTY;
   } else {
     GA[ga_handle].property = NO_PROPERTY;
   }
-- 
2.43.0


From 8b673fd9df1e203cea101fee6e451010d463002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 026/107] fix: nbget_ghost_dir used a direction mask shifted by
 one

---
 global/src/capi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index 8b69870..6b577d8 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -1574,7 +1574,7 @@ void NGA_NbGet_ghost_dir(int g_a, int mask[], ga_nbhdl_t* nbhandle)
     Integer a=(Integer)g_a;
     Integer ndim = wnga_ndim(a);
     Integer _ga_lo[MAXDIM];
-    COPYINDEX_C2F(mask,_ga_lo, ndim);
+    COPYC2F(mask,_ga_lo, ndim);
     wnga_nbget_ghost_dir(a, _ga_lo,(Integer *)nbhandle);
 }
 
@@ -1583,7 +1583,7 @@ void NGA_NbGet_ghost_dir64(int g_a, int64_t mask[], ga_nbhdl_t* nbhandle)
     Integer a=(Integer)g_a;
     Integer ndim = wnga_ndim(a);
     Integer _ga_lo[MAXDIM];
-    COPYINDEX_C2F(mask,_ga_lo, ndim);
+    COPYC2F(mask,_ga_lo, ndim);
     wnga_nbget_ghost_dir(a, _ga_lo,(Integer *)nbhandle);
 }
 
-- 
2.43.0


From 35f3a505471e4114d7b58bbebff54cc40f45d9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 027/107] fix: access_ghost_element did not return the leading
 dimensions

---
 global/src/capi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index 6b577d8..96fc30e 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -2507,8 +2507,8 @@ void NGA_Access_ghost_element(int g_a, void *ptr, int subscript[], int ld[])
      Integer _ld[MAXDIM];
 
      COPYINDEX_C2F(subscript, _subscript, ndim);
-     COPYINDEX_C2F(ld, _ld, ndim-1);
      wnga_access_ghost_element_ptr(a, ptr, _subscript, _ld);
+     COPYF2C(_ld, ld, ndim-1);
 }
 
 void NGA_Access_ghost_element64(int g_a, void *ptr, int64_t subscript[], int64_t ld[])
@@ -2519,8 +2519,8 @@ void NGA_Access_ghost_element64(int g_a, void *ptr, int64_t subscript[], int64_t
      Integer _ld[MAXDIM];
 
      COPYINDEX_C2F(subscript, _subscript, ndim);
-     COPYINDEX_C2F(ld, _ld, ndim-1);
      wnga_access_ghost_element_ptr(a, ptr, _subscript, _ld);
+     COPYF2C_64(_ld, ld, ndim-1);
 }
 
 void NGA_Release(int g_a, int lo[], int hi[])
-- 
2.43.0


From 96b4bac7719aa74fecf84895bd72f3074ac13fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 028/107] fix: NGA_Update_ghost_dir updated the wrong dimension

---
 global/src/capi.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index 96fc30e..728821f 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -1560,11 +1560,10 @@ void NGA_Merge_distr_patch64(int g_a, int64_t *alo, int64_t *ahi,
 int NGA_Update_ghost_dir(int g_a, int dimension, int dir, int flag)
 {
     Integer a=(Integer)g_a;
-    Integer idim = (Integer)dimension;
+    Integer idim = wnga_ndim(a) - (Integer)dimension; /* Fortran numbering */
     Integer idir = (Integer)dir;
     logical iflag = (logical)flag;
     logical st;
-    idim++;
     st = wnga_update_ghost_dir(a,idim,idir,iflag);
     return (int)st;
 }
-- 
2.43.0


From ca4650736907c35314c42bbabaf55b03c8457770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 029/107] fix: GA_Duplicate cached addresses for ghost updates
 before allocating

The duplicate of an array with ghost cells remembered where to send from
and receive into before its memory was allocated, so that updating its
ghost cells used the addresses of whatever array had used the handle
before.
---
 global/src/base.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 4411ed1..12c2bc3 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3803,9 +3803,7 @@ logical pnga_duplicate(Integer g_a, Integer *g_b, char* array_name)
     GA[ga_handle].mapc[maplen] = -1;
   }
 
-  /*** if ghost cells are used, initialize ghost cache data ***/
   GA[ga_handle].cache = NULL;
-  pnga_set_ghost_info(*g_b);
 
   /*** initialize and copy info for restricted arrays, if relevant ***/
   GA[ga_handle].rstrctd_list = NULL;
@@ -3852,6 +3850,10 @@ logical pnga_duplicate(Integer g_a, Integer *g_b, char* array_name)
     GA[ga_handle].ptr[grp_me]=NULL;
   }
 
+  /*** if ghost cells are used, initialize ghost cache data (this uses the
+   * addresses of the data, so it cannot be done before the allocation) ***/
+  if(status) pnga_set_ghost_info(*g_b);
+
   if(local_sync_end)pnga_pgroup_sync(grp_id);
 
 #     ifdef GA_CREATE_INDEF
-- 
2.43.0


From 50e65898524b53f03deadbd312a01774913848a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 030/107] fix: get_ghost_block on a group read from the process
 with the group's rank

The data is taken from the caller's own block, but the transfer named the
caller by its rank in the group, which is another process of the world
group (whose memory is then read at the caller's address, or which never
answers).
---
 global/src/ghosts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 4a6f2a5..477413c 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -378,7 +378,7 @@ void pnga_get_ghost_block(Integer g_a,
        processor indexed by proc (stride_rem) and for local buffer
        buf (stride_loc) */
     gam_setstride(ndim, size, ld, ldrem, stride_rem, stride_loc);
-    ARMCI_GetS(ptr,stride_rem,buf,stride_loc,count,ndim-1,me);
+    ARMCI_GetS(ptr,stride_rem,buf,stride_loc,count,ndim-1,(int)GAme);
   } else {
     pnga_periodic(g_a,lo,hi,buf,ld,NULL,PERIODIC_GET);
   }
-- 
2.43.0


From 662b7470e532cd2d04364d3f52f59a8003434b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 031/107] fix: ghost cell operations on an array of another
 group used the default group's rank

The blocks of an array are numbered by the ranks of the array's own group;
the ghost routines looked up the caller's block with its rank in the
default group.
---
 global/src/ghosts.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 477413c..5fc6045 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -100,7 +100,7 @@ char *lptr;
 Integer  handle = GA_OFFSET + g_a;
 Integer  i, lo[MAXDIM], hi[MAXDIM];
 Integer ndim = GA[handle].ndim;
-Integer me = pnga_nodeid();
+Integer me = pnga_pgroup_nodeid((Integer)GA[handle].p_handle);
 
 
    pnga_distribution(g_a, me, lo, hi);
@@ -130,7 +130,7 @@ Integer i=0;
 Integer tmp_sub[MAXDIM];
 unsigned long    elemsize=0;
 unsigned long    lref=0, lptr=0;
-Integer me = pnga_nodeid();
+Integer me = pnga_pgroup_nodeid((Integer)GA[handle].p_handle);
    /* Indices conform to Fortran convention. Shift them down 1 so that
       gam_LocationWithGhosts works. */
    for (i=0; i<GA[handle].ndim; i++) tmp_sub[i] = subscript[i] - 1;
@@ -201,7 +201,7 @@ void pnga_access_ghost_element_ptr(Integer g_a, void *ptr,
   Integer  handle = GA_OFFSET + g_a; 
   Integer i; 
   Integer tmp_sub[MAXDIM]; 
-  Integer me = pnga_nodeid(); 
+  Integer me = pnga_pgroup_nodeid((Integer)GA[handle].p_handle); 
   /* Indices conform to Fortran convention. Shift them down 1 so that 
      gam_LocationWithGhosts works. */ 
   for (i=0; i<GA[handle].ndim; i++) tmp_sub[i] = subscript[i] - 1; 
@@ -406,7 +406,7 @@ void pnga_update1_ghosts(Integer g_a)
   int stride_loc[MAXDIM], stride_rem[MAXDIM], count[MAXDIM];
   char *ptr_loc, *ptr_rem;
   logical hasData = TRUE;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid((Integer)GA[handle].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -822,7 +822,7 @@ logical pnga_update2_ghosts(Integer g_a)
   logical mask0;
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid((Integer)GA[handle].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -1062,7 +1062,7 @@ logical pnga_update3_ghosts(Integer g_a)
   Integer ld_loc[MAXDIM], ld_rem[MAXDIM];
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid((Integer)GA[handle].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -1312,7 +1312,7 @@ logical pnga_set_update4_info(Integer g_a)
   /*int corner_flag;*/
   char **ptr_snd, **ptr_rcv, *cache;
   char *current;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid((Integer)GA[handle].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -1694,7 +1694,7 @@ logical pnga_update4_ghosts(Integer g_a)
   char **ptr_snd, **ptr_rcv, *cache, *current;
   char send_name[32], rcv_name[32];
   void *snd_ptr, *rcv_ptr, *snd_ptr_orig, *rcv_ptr_orig;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid((Integer)GA[handle].p_handle);
   /*Integer p_handle;*/
 
   /* This routine makes use of the shift algorithm to update data in the
@@ -1954,7 +1954,7 @@ logical pnga_update44_ghosts(Integer g_a)
   char *ptr_snd, *ptr_rcv;
   char send_name[32], rcv_name[32];
   void *snd_ptr, *rcv_ptr, *snd_ptr_orig, *rcv_ptr_orig;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid((Integer)GA[handle].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -2487,7 +2487,7 @@ logical pnga_update55_ghosts(Integer g_a)
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   int msgcnt;
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid((Integer)GA[handle].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -2767,7 +2767,7 @@ void pnga_update_ghosts_nb(Integer g_a, Integer *nbhandle)
   logical mask0;
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid((Integer)GA[handle].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -2935,7 +2935,7 @@ logical pnga_update_ghost_dir(Integer g_a,    /* GA handle */
   logical flag;
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid((Integer)GA[handle].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -3304,7 +3304,7 @@ logical pnga_set_update5_info(Integer g_a)
 #ifdef UPDATE_SAMENODE_GHOSTS_FIRST
   int scope;
 #endif
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid((Integer)GA[handle].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -3587,7 +3587,7 @@ logical pnga_update6_ghosts(Integer g_a)
   char /* *ptr_loc,*/ *ptr_rem;
   char send_name[32], rcv_name[32];
   void *snd_ptr, *rcv_ptr, *snd_ptr_orig, *rcv_ptr_orig;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid((Integer)GA[handle].p_handle);
   Integer p_handle, wproc;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -4134,7 +4134,7 @@ logical pnga_update7_ghosts(Integer g_a)
   logical mask0;
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid((Integer)GA[handle].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -4303,7 +4303,7 @@ void pnga_nbget_ghost_dir(Integer g_a,
   Integer subscript[MAXDIM], ld[MAXDIM];
   Integer i, ndim, dim, width;
   char *ptr_loc;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid((Integer)GA[handle].p_handle);
   /*Integer p_handle;*/
   ndim = GA[handle].ndim;
   /*p_handle = GA[handle].p_handle;*/
-- 
2.43.0


From 738f7d27fe84f00604655f27f5743752da8517e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 032/107] fix: NGA_Update_ghost_dir aborted when a ghost width
 is zero

As in the other update routines, blocks of ghost cells without elements
are skipped.
---
 global/src/ghosts.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 5fc6045..6d76931 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -2935,6 +2935,7 @@ logical pnga_update_ghost_dir(Integer g_a,    /* GA handle */
   logical flag;
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
+  logical mask0;
   Integer me = pnga_pgroup_nodeid((Integer)GA[handle].p_handle);
   Integer p_handle;
   Integer *_ga_map = NULL;
@@ -3019,6 +3020,12 @@ logical pnga_update_ghost_dir(Integer g_a,    /* GA handle */
         inx++;
       }
     }
+    /* check to see if ghost cell block has zero elements*/
+    mask0 = FALSE;
+    for (idx = 0; idx < ndim; idx++) {
+      if (mask[idx] != 0 && width[idx] == 0) mask0 = TRUE;
+    }
+    if (mask0) continue;
     /* Now that mask has been determined, find processor that contains
      * data needed by the corresponding block of ghost cells */
     for (idx = 0; idx < ndim; idx++) {
-- 
2.43.0


From eaf9da676450f802037fd0b20de9761cd3e4d654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 033/107] fix: local iteration over a block grid failed on
 processes without blocks

A process beyond the last block in any dimension but the last was given a
block outside the grid, so that for instance fill_patch and zero_patch
aborted on arrays with fewer blocks than processes in that dimension.
---
 global/src/iterator.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index d8f098b..b7f5e9d 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -887,6 +887,10 @@ int pnga_local_iterator_next(_iterator_hdl *hdl, Integer plo[],
       GA[handle].distr_type == TILED) {
     /* Scalapack-type data distribution */
     if (hdl->index[ndim-1] >= hdl->blk_num[ndim-1]) return 0;
+    /* This process has no blocks if it is outside the block grid */
+    for (i=0; i<ndim; i++) {
+      if (hdl->proc_index[i] >= hdl->blk_num[i]) return 0;
+    }
     /* Find coordinates of bounding block */
     for (i=0; i<ndim; i++) {
       plo[i] = hdl->index[i]*hdl->blk_size[i]+1;
@@ -905,6 +909,10 @@ int pnga_local_iterator_next(_iterator_hdl *hdl, Integer plo[],
     /* Irregular tiled data distribution */
     Integer offset = 0;
     if (hdl->index[ndim-1] >= hdl->blk_num[ndim-1]) return 0;
+    /* This process has no blocks if it is outside the block grid */
+    for (i=0; i<ndim; i++) {
+      if (hdl->proc_index[i] >= hdl->blk_num[i]) return 0;
+    }
     /* Find coordinates of bounding block */
     for (i=0; i<ndim; i++) {
       plo[i] = hdl->mapc[offset+hdl->index[i]];
-- 
2.43.0


From 1795597043b62c2a4bdb2c1a4fbf60f68a5cdd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 034/107] fix: elem_multiply of complex arrays was wrong when
 the result replaces an operand

The real part of the product was stored before the imaginary part was
computed from the operands.
---
 global/src/elem_alg.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/global/src/elem_alg.c b/global/src/elem_alg.c
index 26c9cd9..9523210 100644
--- a/global/src/elem_alg.c
+++ b/global/src/elem_alg.c
@@ -1072,11 +1072,13 @@ static void do_multiply(void *pA, void *pB, void *pC, Integer nelems, Integer ty
 #define TYPE_CASE(MT,T,AT)                                                  \
         case MT:                                                            \
             {                                                               \
-                const T* const restrict aptr = (const T* const restrict)pA; \
-                const T* const restrict bptr = (const T* const restrict)pB; \
-                T* const restrict cptr = (T* const restrict)pC;             \
+                /* the result may replace one of the operands */            \
+                const T* const aptr = (const T*)pA;                         \
+                const T* const bptr = (const T*)pB;                         \
+                T* const cptr = (T*)pC;                                     \
                 for (i=0; i<nelems; i++) {                                  \
-                    assign_mul_##AT(cptr[i],aptr[i],bptr[i]);               \
+                    const T aval = aptr[i], bval = bptr[i];                 \
+                    assign_mul_##AT(cptr[i],aval,bval);                     \
                 }                                                           \
                 break;                                                      \
             }
-- 
2.43.0


From 6fc6ea6e7d02bb388b2b0bf3176d58fc312cda51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 035/107] fix: GA_Add used an uninitialized type when all three
 arrays are the same

Nothing, or the wrong operation, was then done.
---
 global/src/global.nalg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/global.nalg.c b/global/src/global.nalg.c
index 4a56072..09a8a4c 100644
--- a/global/src/global.nalg.c
+++ b/global/src/global.nalg.c
@@ -793,6 +793,7 @@ int local_sync_begin,local_sync_end;
      GET_ELEMS(ndim,_lo,_hi,_ld,&elems);
    }
 
+   type = typeC;
    if(g_a == g_c){
      ptr_a  = ptr_c;
      elemsa = elems;
-- 
2.43.0


From e0b48cd770d92e9ba35f8c94f12c112cde9549d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 036/107] fix: element-wise operations on arrays with and
 without ghost cells

Operands with identical distributions but different ghost widths were
accessed with the leading dimension of only one of them.
---
 global/src/base.c          | 17 +++++++++++++++++
 global/src/elem_alg.c      |  6 ++++--
 global/src/global.npatch.c |  9 ++++++---
 global/src/globalp.h       |  1 +
 4 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 12c2bc3..85e7243 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -5076,6 +5076,23 @@ int i;
    return TRUE;
 }
 
+/*\ compare the local memory layout (ghost cell widths) of two arrays
+ *  with identical distributions
+\*/
+logical gai_same_ghosts(Integer g_a, Integer g_b)
+{
+    Integer i, ndim = pnga_ndim(g_a);
+    Integer ha = g_a + GA_OFFSET, hb = g_b + GA_OFFSET;
+
+    if(ndim != pnga_ndim(g_b)) {
+        return !pnga_has_ghosts(g_a) && !pnga_has_ghosts(g_b);
+    }
+    for(i=0; i<ndim; i++)
+        if(GA[ha].width[i] != GA[hb].width[i]) return FALSE;
+
+    return TRUE;
+}
+
 
 static int num_mutexes=0;
 static int chunk_mutex;
diff --git a/global/src/elem_alg.c b/global/src/elem_alg.c
index 9523210..046f987 100644
--- a/global/src/elem_alg.c
+++ b/global/src/elem_alg.c
@@ -1887,7 +1887,8 @@ int op; /* operation to be perform between g_a and g_b */
 
     /* test if the local portion of patches matches */
     if(pnga_comp_patch(andim, loA, hiA, cndim, loC, hiC) &&
-        pnga_comp_patch(andim, alo, ahi, cndim, clo, chi)) compatible = 1;
+        pnga_comp_patch(andim, alo, ahi, cndim, clo, chi) &&
+        gai_same_ghosts(g_A, g_c)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -1914,7 +1915,8 @@ int op; /* operation to be perform between g_a and g_b */
 
     /* test if the local portion of patches matches */
     if(pnga_comp_patch(bndim, loB, hiB, cndim, loC, hiC) &&
-        pnga_comp_patch(bndim, blo, bhi, cndim, clo, chi)) compatible = 1;
+        pnga_comp_patch(bndim, blo, bhi, cndim, clo, chi) &&
+        gai_same_ghosts(g_B, g_c)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
diff --git a/global/src/global.npatch.c b/global/src/global.npatch.c
index 0ac99f0..5e8b2c8 100644
--- a/global/src/global.npatch.c
+++ b/global/src/global.npatch.c
@@ -1210,7 +1210,8 @@ void pnga_dot_patch(Integer g_a, char *t_a, Integer *alo, Integer *ahi, Integer
     pnga_distribution(g_B, me, loB, hiB);
 
     if(pnga_comp_patch(andim, loA, hiA, bndim, loB, hiB) &&
-        pnga_comp_patch(andim, alo, ahi, bndim, blo, bhi)) compatible = 1;
+        pnga_comp_patch(andim, alo, ahi, bndim, blo, bhi) &&
+        gai_same_ghosts(g_A, g_B)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -2703,12 +2704,14 @@ void *alpha, *beta;
 
     /* test if the local portion of patches matches */
     if(pnga_comp_patch(andim, loA, hiA, cndim, loC, hiC) &&
-       pnga_comp_patch(andim, alo, ahi, cndim, clo, chi)) compatible_a = 1;
+       pnga_comp_patch(andim, alo, ahi, cndim, clo, chi) &&
+       gai_same_ghosts(g_A, g_c)) compatible_a = 1;
     else compatible_a = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible_a, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible_a, 1, "&&");
     if(pnga_comp_patch(bndim, loB, hiB, cndim, loC, hiC) &&
-       pnga_comp_patch(bndim, blo, bhi, cndim, clo, chi)) compatible_b = 1;
+       pnga_comp_patch(bndim, blo, bhi, cndim, clo, chi) &&
+       gai_same_ghosts(g_B, g_c)) compatible_b = 1;
     else compatible_b = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible_b, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible_b, 1, "&&");
diff --git a/global/src/globalp.h b/global/src/globalp.h
index 2db39cc..3d1648f 100644
--- a/global/src/globalp.h
+++ b/global/src/globalp.h
@@ -140,6 +140,7 @@ extern void    ga_sort_gath(Integer *pn, Integer *i, Integer *j, Integer *base);
 extern void    ga_sort_permutation(Integer *pn, Integer *index, Integer *base);
 extern void    ga_sort_scat(Integer *pn, void *v, Integer *i, Integer *j, Integer *base, Integer type);
 extern void    gai_hsort(Integer *list, int num);
+extern logical gai_same_ghosts(Integer g_a, Integer g_b);
 extern void    ga_init_nbhandle(Integer *nbhandle);
 extern int     nga_test_internal(Integer *nbhandle);
 extern int     nga_wait_internal(Integer *nbhandle);
-- 
2.43.0


From fa8e418a65c3e8e407f2007763a1698bcaad8c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 037/107] fix: median of differently distributed arrays aborted

The test whether the operands match was inverted: matching operands
were copied and operands that match nowhere were used in place, which
ended in a patch mismatch error.
---
 global/src/matrix.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index 377dca2..15c2f9c 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -404,7 +404,9 @@ void pnga_median_patch(
     pnga_distribution (g_C, me, loC, hiC);
     pnga_distribution (g_M, me, loM, hiM);
 
-    if (!pnga_comp_patch (andim, loA, hiA, mndim, loM, hiM)) compatible = 1;
+    if (pnga_comp_patch (andim, loA, hiA, mndim, loM, hiM) &&
+        pnga_comp_patch (andim, alo, ahi, mndim, mlo, mhi) &&
+        gai_same_ghosts (g_A, g_M)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -422,7 +424,9 @@ void pnga_median_patch(
       pnga_distribution (g_A, me, loA, hiA);
     }
 
-    if (!pnga_comp_patch (bndim, loB, hiB, mndim, loM, hiM)) compatible = 1;
+    if (pnga_comp_patch (bndim, loB, hiB, mndim, loM, hiM) &&
+        pnga_comp_patch (bndim, blo, bhi, mndim, mlo, mhi) &&
+        gai_same_ghosts (g_B, g_M)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -440,7 +444,9 @@ void pnga_median_patch(
       pnga_distribution (g_B, me, loB, hiB);
     }
 
-    if (!pnga_comp_patch (cndim, loC, hiC, mndim, loM, hiM)) compatible = 1;
+    if (pnga_comp_patch (cndim, loC, hiC, mndim, loM, hiM) &&
+        pnga_comp_patch (cndim, clo, chi, mndim, mlo, mhi) &&
+        gai_same_ghosts (g_C, g_M)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
-- 
2.43.0


From 82651c49cf0c2728776187a7e1c0bc269b017d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 038/107] fix: GA_Scale_rows and GA_Scale_cols of complex
 matrices

The real and imaginary parts were multiplied separately.
---
 global/src/matrix.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index 15c2f9c..39a76b0 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -2497,16 +2497,18 @@ static void sgai_scale_row_values(Integer type, Integer *lo,
           dca = (DoubleComplex *) ptr;
           for (i = 0; i < hi[0]-lo[0]+1; i++)
             for(j=0;j<hi[1]-lo[1]+1;j++) {
-              (dca[j*ld+i]).real *= (((DoubleComplex *) buf)[i]).real;
-              (dca[j*ld+i]).imag *= (((DoubleComplex *) buf)[i]).imag;
+              DoubleComplex x = dca[j*ld+i], y = ((DoubleComplex *) buf)[i];
+              (dca[j*ld+i]).real = x.real*y.real - x.imag*y.imag;
+              (dca[j*ld+i]).imag = x.real*y.imag + x.imag*y.real;
             }
           break;
         case C_SCPL:
           fca = (SingleComplex *) ptr;
           for (i = 0; i < hi[0]-lo[0]+1; i++)
             for(j=0;j<hi[1]-lo[1]+1;j++) {
-              (fca[j*ld+i]).real *= (((SingleComplex *) buf)[i]).real;
-              (fca[j*ld+i]).imag *= (((SingleComplex *) buf)[i]).imag;
+              SingleComplex x = fca[j*ld+i], y = ((SingleComplex *) buf)[i];
+              (fca[j*ld+i]).real = x.real*y.real - x.imag*y.imag;
+              (fca[j*ld+i]).imag = x.real*y.imag + x.imag*y.real;
             }
           break;
         default:
@@ -2703,8 +2705,9 @@ static void sgai_scale_col_values(Integer type, Integer *lo,
           for(j=0;j<hi[1]-lo[1]+1;j++)
             for (i = 0; i < hi[0]-lo[0]+1; i++)
             {
-              (dca[j*ld+i]).real *= (((DoubleComplex *) buf)[j]).real;
-              (dca[j*ld+i]).imag *= (((DoubleComplex *) buf)[j]).imag;
+              DoubleComplex x = dca[j*ld+i], y = ((DoubleComplex *) buf)[j];
+              (dca[j*ld+i]).real = x.real*y.real - x.imag*y.imag;
+              (dca[j*ld+i]).imag = x.real*y.imag + x.imag*y.real;
             }
           break;
         case C_SCPL:
@@ -2712,8 +2715,9 @@ static void sgai_scale_col_values(Integer type, Integer *lo,
           for(j=0;j<hi[1]-lo[1]+1;j++)
             for (i = 0; i < hi[0]-lo[0]+1; i++)
             {
-              (fca[j*ld+i]).real *= (((SingleComplex *) buf)[j]).real;
-              (fca[j*ld+i]).imag *= (((SingleComplex *) buf)[j]).imag;
+              SingleComplex x = fca[j*ld+i], y = ((SingleComplex *) buf)[j];
+              (fca[j*ld+i]).real = x.real*y.real - x.imag*y.imag;
+              (fca[j*ld+i]).imag = x.real*y.imag + x.imag*y.real;
             }
           break;
         default:
-- 
2.43.0


From deeced334ee735a2554a830379c5a989b6aa1309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 039/107] fix: GA_Zero_diagonal cleared the wrong elements of
 off-diagonal blocks

The offset of the first diagonal element within a block that does not
start on the diagonal was ignored.
---
 global/src/matrix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index 39a76b0..94de7bb 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -2325,6 +2325,7 @@ void pnga_zero_diagonal(Integer g_a)
       hi[0] = GA_MIN (hiA[0], hiA[1]);
       hi[1] = GA_MIN (hiA[0], hiA[1]);
       if (hi[0] >= lo[0]) {
+        offset = (lo[0]-loA[0]) + (lo[1]-loA[1])*ld;
         sgai_zero_diagonal_block(g_a, ptr, lo, hi, ld, offset, type);
       }
     }
-- 
2.43.0


From 6b1e6ae10c24e3f86dac7ed714ae5e914827733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 040/107] fix: GA_Median_patch on block-cyclic arrays changed
 elements outside the patch

The blocks returned by the local iterator were not intersected with the
patch.
---
 global/src/matrix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index 94de7bb..f73831b 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -539,6 +539,7 @@ void pnga_median_patch(
         lod[j] = loM[j];
         /*hid[j] = hiM[j];*/
       }
+      if (!pnga_patch_intersect(mlo, mhi, loM, hiM, mndim)) continue;
 
       /* evaluate offsets for system */
       offset = 0;
-- 
2.43.0


From a1b6d335727d953cf1241b1a643a5dbbee785446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 041/107] fix: GA_Norm_infinity of arrays with several blocks
 per process

The running maximum was reset to the first element of every block, so
only the last block counted.
---
 global/src/matrix.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index f73831b..9b73a75 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -807,7 +807,6 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       float ftemp;
       case C_INT:
       pi = (int *) ptr;
-      *isum = GA_ABS(pi[0]);
       for (j = 0; j < jhiA - jloA + 1; j++) {
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pi[j*ld + i]) > *isum) *isum = GA_ABS(pi[j*ld+i]);
@@ -815,17 +814,12 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_LONG:
       pl = (long *) ptr;
-      *lsum = GA_ABS(pl[0]);
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pl[j*ld + i]) > *lsum) *lsum = GA_ABS(pl[j*ld+i]);
       break;
       case C_DCPL:
       pz = (DoubleComplex *) ptr;
-      zval = pz[0];
-      dtemp =
-        sqrt (zval.real * zval.real + zval.imag * zval.imag);
-      (*zsum).real = dtemp;
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
         {
@@ -837,10 +831,6 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_SCPL:
       pc = (SingleComplex *) ptr;
-      cval =  pc[0];
-      ftemp =
-        sqrt (cval.real * cval.real + cval.imag * cval.imag);
-      (*csum).real = ftemp;
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
         {
@@ -852,14 +842,12 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_FLOAT:
       pf = (float *) ptr;
-      *fsum = pf[0];
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pf[j*ld+i]) > *fsum) *fsum = GA_ABS(pf[j*ld+i]);
       break;
       case C_DBL:
       pd = (double *) ptr;
-      *dsum = pd[0];
       for (i = 0; i < ihiA - iloA + 1; i++)
         for (j = 0; j < jhiA - jloA + 1; j++)
           if (GA_ABS(pd[j*ld+i]) > *dsum) *dsum = GA_ABS(pd[j*ld+i]);
-- 
2.43.0


From e9eacd017947fbe335accc452f20f212432e16fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 042/107] fix: GA_Norm1 of arrays with several blocks per
 process

The running sum was reset for every block, so only the last block
counted.
---
 global/src/matrix.c | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index 9b73a75..0dfe7ee 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -1112,22 +1112,18 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
       SingleComplex *pc;
       case C_INT:
         pi = (int *) ptr;
-        *isum = 0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *isum += GA_ABS (pi[j * ld + i]);
         break;
       case C_LONG:
         pl = (long *) ptr;
-        *lsum = 0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *lsum += GA_ABS (pl[j * ld + i]);
         break;
       case C_DCPL:
         pz = (DoubleComplex *) ptr;
-        (*zsum).real = 0.0;
-        (*zsum).imag = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
           {
@@ -1139,8 +1135,6 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
         break;
       case C_SCPL:
         pc = (SingleComplex *) ptr;
-        (*csum).real = 0.0;
-        (*csum).imag = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
           {
@@ -1152,14 +1146,12 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
         break;
       case C_FLOAT:
         pf = (float *) ptr;
-        *fsum = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *fsum += GA_ABS (pf[j * ld + i]);
         break;
       case C_DBL:
         pd = (double *) ptr;
-        *dsum = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *dsum += GA_ABS (pd[j * ld + i]);
-- 
2.43.0


From b0f9b4bf6e9c27078c1fbbba0b155109208947a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 043/107] fix: periodic requests more than one period below the
 array

The shift that brings a request back over the array had the wrong sign for
upper bounds of -dims and below, so that such requests, unlike those the same
distance above the array, ended in an error.
---
 global/src/global.periodic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/global.periodic.c b/global/src/global.periodic.c
index ea52469..ee8fcd8 100644
--- a/global/src/global.periodic.c
+++ b/global/src/global.periodic.c
@@ -99,7 +99,7 @@ static int ngai_peri_get_range_(Integer ndim, Integer *dims, Integer *lo_orig, I
       }
       if (hi[i] < 1) {
         rmndr = -hi[i]%dims[i];
-        id = (hi[i]+rmndr)/dims[i]+1; 
+        id = (-hi[i]-rmndr)/dims[i]+1; 
         lo[i] = lo[i] + id*dims[i];
         hi[i] = hi[i] + id*dims[i];
         if (id != 0) {
-- 
2.43.0


From b7d1edf6603d5971176781fd01e5d1b48ec1e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 044/107] fix: GA_Pgroup_duplicate of groups other than a
 leading range

The members of the duplicate's ARMCI group were numbered within the group
itself instead of within the default group, and duplicating the world group
read in front of the group list.
---
 global/src/base.c | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 85e7243..4e0ce3d 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1222,7 +1222,6 @@ Integer pnga_pgroup_duplicate(Integer grp)
 #ifdef MSG_COMMS_MPI
     ARMCI_Group *tmpgrp;
 #endif
-    Integer save_grp;
     if (grp != -1 && !PGRP_LIST[grp].actv) {
        pnga_error(" Group is not active ", grp);
     }
@@ -1261,32 +1260,23 @@ Integer pnga_pgroup_duplicate(Integer grp)
           = i;
       }
     }
-    tmp_count = PGRP_LIST[grp].map_nproc;
+    tmp_count = (grp != -1) ? PGRP_LIST[grp].map_nproc : (int)GAnproc;
 
     tmp_list = (int*)malloc(GAnproc*sizeof(int));
-    tmp2_list = PGRP_LIST[grp].inv_map_proc_list;
-    save_grp = GA_Default_Proc_Group;
-    GA_Default_Proc_Group = PGRP_LIST[grp].parent;
-    if (grp != -1 && GA_Default_Proc_Group != -1) {
-       int parent = GA_Default_Proc_Group;
-       for (i=0; i<tmp_count; i++) {
-          tmp_list[i] = (int)PGRP_LIST[parent].map_proc_list[tmp2_list[i]];
-       }
-    } else if (grp != -1 && GA_Default_Proc_Group == -1) {
-       for (i=0; i<tmp_count; i++) {
-          tmp_list[i] = (int)PGRP_LIST[grp].map_proc_list[tmp2_list[i]];
-       }
-    } else {
-       for (i=0; i<GAnproc; i++) {
-          tmp_list[i] = i;
-       }
+    tmp2_list = PGRP_LIST[pgrp_handle].inv_map_proc_list;
+    /* the members as numbered in the group that is the parent of the new
+       ARMCI group, which is the default group */
+    for (i=0; i<tmp_count; i++) {
+       j = tmp2_list[i];
+       if (GA_Default_Proc_Group != -1)
+          j = PGRP_LIST[GA_Default_Proc_Group].map_proc_list[j];
+       tmp_list[i] = (int)j;
     }
     
     PGRP_LIST[pgrp_handle].map_nproc = tmp_count;
     PGRP_LIST[pgrp_handle].actv = 1;
-    PGRP_LIST[pgrp_handle].parent = PGRP_LIST[grp].parent;
+    PGRP_LIST[pgrp_handle].parent = (grp != -1) ? PGRP_LIST[grp].parent : -1;
     PGRP_LIST[pgrp_handle].mirrored = 0;
-    PGRP_LIST[pgrp_handle].map_nproc = PGRP_LIST[grp].map_nproc;
 #ifdef MSG_COMMS_MPI
     tmpgrp = &PGRP_LIST[pgrp_handle].group;
 #if ENABLE_CHECKPOINT
@@ -1297,7 +1287,6 @@ Integer pnga_pgroup_duplicate(Integer grp)
        ARMCI_Group_create(tmp_count, tmp_list, &PGRP_LIST[pgrp_handle].group);
 #endif
 
-    GA_Default_Proc_Group = save_grp;
     /* Clean up temporary arrays */
     free(tmp_list);
 
-- 
2.43.0


From b6036c7bc7824ae04ce03b235fdd18570bf86502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 045/107] fix: MA allocations whose size in bytes overflows

---
 ma/ma.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ma/ma.c b/ma/ma.c
index 03f214e..1c3cb85 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -2003,6 +2003,16 @@ public Boolean MA_allocate_heap(
     /* convert datatype to internal (index-suitable) value */
     datatype = mt_import(datatype);
 
+    /* verify that the size in bytes does not overflow */
+    if ((ulongi)nelem > (ulongi)(ma_eos - ma_segment) / ma_sizeof[datatype])
+    {
+        (void)sprintf(ma_ebuf,
+            "block '%s', not enough space to allocate %ld elements",
+            name, (size_t)nelem);
+        ma_error(EL_Nonfatal, ET_External, "MA_allocate_heap", ma_ebuf);
+        return MA_FALSE;
+    }
+
     /*
      * attempt to allocate space
      */
@@ -3298,6 +3308,16 @@ public Boolean MA_push_stack(
     /* convert datatype to internal (index-suitable) value */
     datatype = mt_import(datatype);
 
+    /* verify that the size in bytes does not overflow */
+    if ((ulongi)nelem > (ulongi)(ma_eos - ma_segment) / ma_sizeof[datatype])
+    {
+        (void)sprintf(ma_ebuf,
+            "block '%s', not enough space to allocate %ld elements",
+            name, (size_t)nelem);
+        ma_error(EL_Nonfatal, ET_External, "MA_push_stack", ma_ebuf);
+        return MA_FALSE;
+    }
+
     /*
      * attempt to allocate space
      */
-- 
2.43.0


From 2cdebc5bbc2fc79f0ebfcd5d7c3b0426f59b8f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 046/107] fix: MA inquiries when the heap or stack has outgrown
 the partition

---
 ma/ma.c | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/ma/ma.c b/ma/ma.c
index 1c3cb85..7e766ed 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -176,7 +176,7 @@ private void list_insert_ordered(AD *ad, AD **list, Boolean (*pred)(AD *, AD *))
 private Boolean list_member(AD *ad, AD *list);
 private int list_print(AD *list, char *block_type, int index_base);
 private void list_verify(AD *list, char *block_type, char *preamble, int *blocks, int *bad_blocks, int *bad_checksums, int *bad_lguards, int *bad_rguards);
-private Integer ma_max_heap_frag_nelem(Integer datatype, Integer min_nelem);
+private Integer ma_max_heap_frag_nelem(Integer datatype, Integer min_nelem, Pointer limit);
 private Integer ma_nelem(Pointer address, ulongi length, Integer datatype);
 private void ma_preinitialize(char *caller);
 private Boolean mh2ad(Integer memhandle, AD **adout, BlockLocation location, char *caller);
@@ -1465,13 +1465,14 @@ private void list_verify(list, block_type, preamble, blocks,
 /*
  * Return the maximum number of datatype elements that can currently be
  * accomodated in a heap fragment (a block on the heap free list) entirely
- * within the heap region, or 0 if this number is less than min_nelem.
+ * below limit, or 0 if this number is less than min_nelem.
  */
 /* ------------------------------------------------------------------------- */
 
-private Integer ma_max_heap_frag_nelem(datatype, min_nelem)
+private Integer ma_max_heap_frag_nelem(datatype, min_nelem, limit)
     Integer    datatype;    /* of elements */
     Integer    min_nelem;    /* for fragment to be considered */
+    Pointer    limit;        /* end of the region to consider */
 {
     ulongi    min_bytes;    /* for fragment to be considered */
     AD        *ad;        /* traversal pointer */
@@ -1489,20 +1490,20 @@ private Integer ma_max_heap_frag_nelem(datatype, min_nelem)
         /*
          * There are 3 cases to consider:
          *
-         * (a) fragment is outside heap region
-         * (b) fragment straddles partition between heap and stack regions
-         * (c) fragment is inside heap region
+         * (a) fragment is outside the region
+         * (b) fragment straddles the end of the region
+         * (c) fragment is inside the region
          */
 
-        if ((Pointer)ad >= ma_partition)
+        if ((Pointer)ad >= limit)
         {
             /* case (a): reject */
             continue;
         }
-        else if (((Pointer)ad + ad->nbytes) >= ma_partition)
+        else if (((Pointer)ad + ad->nbytes) >= limit)
         {
-            /* case (b): truncate fragment at partition */
-            nbytes = (ulongi)(ma_partition - (Pointer)ad);
+            /* case (b): truncate fragment at limit */
+            nbytes = (ulongi)(limit - (Pointer)ad);
         }
         else
         {
@@ -2752,7 +2753,7 @@ public Integer MA_inquire_heap(Integer datatype)
         nelem_gap = 0;
 
     /* try heap fragments */
-    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap);
+    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap, ma_partition);
 
     /* success */
     return max(nelem_gap, nelem_frag);
@@ -2816,14 +2817,16 @@ public Integer MA_inquire_heap_check_stack(Integer datatype)
      */
 
     /* try space between heap and partition or heap and stack */
-    gap_length = min((size_t)(ma_partition - ma_hp), (size_t)(ma_sp - ma_hp));
-    if (gap_length > 0)
+    if (ma_partition > ma_hp)
+    {
+        gap_length = min((size_t)(ma_partition - ma_hp), (size_t)(ma_sp - ma_hp));
         nelem_gap = ma_nelem(ma_hp, (ulongi)gap_length, datatype);
+    }
     else
         nelem_gap = 0;
 
     /* try heap fragments */
-    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap);
+    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap, ma_partition);
 
     /* success */
     return max(nelem_gap, nelem_frag);
@@ -2894,7 +2897,7 @@ public Integer MA_inquire_heap_no_partition(Integer datatype)
         nelem_gap = 0;
 
     /* try heap fragments */
-    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap);
+    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap, ma_eos);
 
     /* success */
     return max(nelem_gap, nelem_frag);
@@ -2955,8 +2958,7 @@ public Integer MA_inquire_stack(Integer datatype)
 
     /* try space between partition and stack */
     gap_length = (size_t)(ma_sp - ma_partition);
-    /*if (ma_sp > ma_partition)*/
-    if (gap_length > 0)
+    if (ma_sp > ma_partition)
         nelem_gap = ma_nelem(ma_partition, (ulongi)gap_length, datatype);
     else
         nelem_gap = 0;
@@ -3022,9 +3024,11 @@ public Integer MA_inquire_stack_check_heap(Integer datatype)
      */
 
     /* try space between partition and stack or heap and stack */
-    gap_length = min((size_t)(ma_sp - ma_partition), (size_t)(ma_sp - ma_hp));
-    if (gap_length > 0)
+    if (ma_sp > ma_partition)
+    {
+        gap_length = min((size_t)(ma_sp - ma_partition), (size_t)(ma_sp - ma_hp));
         nelem_gap = ma_nelem(ma_partition, (ulongi)gap_length, datatype);
+    }
     else
         nelem_gap = 0;
 
-- 
2.43.0


From 92209a4f8c02365ce6a49095d89e9e3bccbdbf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 047/107] fix: matrix multiply with block-cyclic arrays

The patches of A, B and C were ignored (the whole local block of C was
updated, reading A and B at C's indices), and the buffer for A was sized by
the block of C although it holds a rows x rows piece.
---
 global/src/matmul.c | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/global/src/matmul.c b/global/src/matmul.c
index 0c8dc5f..1e80b9b 100644
--- a/global/src/matmul.c
+++ b/global/src/matmul.c
@@ -2665,7 +2665,6 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
     Integer num_blocks;
     Integer offset, elemsize, ld;
     void *a_buf, *b_buf, *c_buf;
-    Integer size_a, size_b, size_c;
     /*
     printf("p[%d] loC[0]: %d hiC[0]: %d loC[1]: %d hiC[1]: %d lC[0]: %d\n",
         pnga_nodeid(),loC[0],hiC[0],loC[1],hiC[1],lC[0]);
@@ -2677,7 +2676,7 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
     }
 
     /* check to see if this block overlaps with patch on C */
-    if (pnga_patch_intersect(loC,hiC,lot,hit,crank)) {
+    if (pnga_patch_intersect(clo,chi,lot,hit,crank)) {
       int istart, in;
 
       /* Calculating number of blocks for inner dimension. Assume that 
@@ -2689,9 +2688,9 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
       offset = lC[0]*(lot[1]-loC[1])+lot[0]-loC[0];
       elemsize = GAsizeofM(atype);
       c_buf = (void*)((char*)src_ptr + elemsize*offset);
-      a_buf = (void*)malloc((hit[0]-lot[0]+1)*(hit[1]-lot[1]+1)*elemsize);
+      /* the inner dimension is cut into pieces of hit[0]-lot[0]+1 elements */
+      a_buf = (void*)malloc((hit[0]-lot[0]+1)*(hit[0]-lot[0]+1)*elemsize);
       b_buf = (void*)malloc((hit[0]-lot[0]+1)*(hit[1]-lot[1]+1)*elemsize);
-      size_c = (hit[0]-lot[0]+1)*(hit[1]-lot[1]+1);
 
       /* calculate starting block index */
       istart = (lot[0]-clo[0])/(hit[0]-lot[0]+1);
@@ -2705,16 +2704,12 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
         in = istart + nb;
         in = in%num_blocks;
         nlo = alo[1]+in*(hit[0]-lot[0]+1);
-        loA[0] = lot[0];
-        hiA[0] = hit[0];
+        loA[0] = alo[0]+lot[0]-clo[0];
+        hiA[0] = alo[0]+hit[0]-clo[0];
         loA[1] = nlo;
         hiA[1] = loA[1]+(hit[0]-lot[0]);
         if (hiA[1] > ahi[1]) hiA[1] = ahi[1];
         ld = hiA[0]-loA[0]+1;
-        size_a = (hiA[0]-loA[0]+1)*(hiA[1]-loA[1]+1);
-        if (size_a > size_c) {
-          printf("p[%d] size_a: %d size_c: %d\n",(int)pnga_nodeid(),(int)size_a,(int)size_c);
-        }
         /*
     printf("p[%d] loA[0]: %d hiA[0]: %d loA[1]: %d hiA[1]: %d\n",pnga_nodeid(),
         loA[0],hiA[0],loA[1],hiA[1]);
@@ -2723,18 +2718,13 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
         /*
         printBlock("Matrix A",atype,a_buf,loA,hiA,&ld);
         */
-        loB[1] = lot[1];
-        hiB[1] = hit[1];
+        loB[1] = blo[1]+lot[1]-clo[1];
+        hiB[1] = blo[1]+hit[1]-clo[1];
         nlo = blo[0]+in*(hit[0]-lot[0]+1);
         loB[0] = nlo;
         hiB[0] = loB[0]+(hit[0]-lot[0]);
         if (hiB[0] > bhi[0]) hiB[0] = bhi[0];
         ld = hiB[0]-loB[0]+1;
-        size_b = (hiB[0]-loB[0]+1)*(hiB[1]-loB[1]+1);
-        if (size_b > size_c) {
-          printf("p[%d] size_b: %d size_c: %d\n",(int)pnga_nodeid(),
-              (int)size_b,(int)size_c);
-        }
         /*
     printf("p[%d] loB[0]: %d hiB[0]: %d loB[1]: %d hiB[1]: %d\n",pnga_nodeid(),
         loB[0],hiB[0],loB[1],hiB[1]);
-- 
2.43.0


From 86d4be5304b36623550ba44ef133a94d731af71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 048/107] fix: GA_Symmetrize of arrays with ghost cells

---
 global/src/ga_symmetr.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/global/src/ga_symmetr.c b/global/src/ga_symmetr.c
index 9b29a88..aa5ccd0 100644
--- a/global/src/ga_symmetr.c
+++ b/global/src/ga_symmetr.c
@@ -53,7 +53,7 @@ void pnga_symmetrize(Integer g_a) {
   Integer alo[GA_MAX_DIM], ahi[GA_MAX_DIM], lda[GA_MAX_DIM], nelem=1;
   Integer blo[GA_MAX_DIM], bhi[GA_MAX_DIM], ldb[GA_MAX_DIM];
   Integer ndim, dims[GA_MAX_DIM], type;
-  Logical have_data;
+  Logical have_data, ghosts;
   Integer g_b; /* temporary global array (b = A') */
   Integer num_blocks_a;
   void *a_ptr=NULL, *b_ptr=NULL;
@@ -85,9 +85,19 @@ void pnga_symmetrize(Integer g_a) {
     for(i=1; i<ndim; i++) have_data = have_data && ahi[i]>0;
 
     if(have_data) {
-      pnga_access_ptr(g_a, alo, ahi, &a_ptr, lda); 
-
       for(i=0; i<ndim; i++) nelem *= ahi[i]-alo[i] +1;
+
+      /* gai_add works on contiguous data, which the local part of an array
+         with ghost cells is not: use a copy of it */
+      ghosts = pnga_has_ghosts(g_a);
+      if(ghosts) {
+        a_ptr = (void *) pnga_malloc(nelem, MT_F_DBL, "a");
+        for (i=0; i < ndim-1; i++) lda[i] = ahi[i] - alo[i] + 1;
+        pnga_get(g_a, alo, ahi, a_ptr, lda);
+      } else {
+        pnga_access_ptr(g_a, alo, ahi, &a_ptr, lda); 
+      }
+
       b_ptr = (void *) pnga_malloc(nelem, MT_F_DBL, "v");
 
       for(i=0; i<ndim-2; i++) {bhi[i]=ahi[i]; blo[i]=alo[i]; }
@@ -106,8 +116,10 @@ void pnga_symmetrize(Integer g_a) {
 
     if(have_data) {
       gai_add(alo, ahi, a_ptr, b_ptr, alpha, type, nelem, ndim);
-      pnga_release_update(g_a, alo, ahi);
+      if(ghosts) pnga_put(g_a, alo, ahi, a_ptr, lda);
+      else pnga_release_update(g_a, alo, ahi);
       pnga_free(b_ptr);
+      if(ghosts) pnga_free(a_ptr);
     }
   } else {
     /* For block-cyclic data, probably most efficient solution is to
-- 
2.43.0


From 300d89a618c1def733945c9b5184196e39306d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 049/107] fix: TCGMSG asynchronous sends are waited for

SND_ never counted its request, so the next asynchronous operation
overwrote it and WAITCOM_ returned while the message was still being sent
from the user's buffer.
---
 tcgmsg/tcgmsg-mpi/p2p.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tcgmsg/tcgmsg-mpi/p2p.c b/tcgmsg/tcgmsg-mpi/p2p.c
index 017f521..dc40743 100644
--- a/tcgmsg/tcgmsg-mpi/p2p.c
+++ b/tcgmsg/tcgmsg-mpi/p2p.c
@@ -48,6 +48,7 @@ void SND_(long *type, void *buf, long *lenbuf, long *node, long *sync)
         msg_q[n_in_msg_q].type   = *type;
         msg_q[n_in_msg_q].lenbuf = *lenbuf;
         msg_q[n_in_msg_q].snd = 1;
+        n_in_msg_q++;
     }
 }
 
-- 
2.43.0


From 2826149348729a0821336bdcd2b3af0dd27d5077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 050/107] fix: nxtval hangs at the end of a loop when ARMCI has
 no asynchronous progress

The process that holds the counter waited for the others in MPI_Barrier,
where it cannot answer their requests for values (MPI two-sided port).
---
 tcgmsg/tcgmsg-mpi/nxtval-armci.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/tcgmsg/tcgmsg-mpi/nxtval-armci.c b/tcgmsg/tcgmsg-mpi/nxtval-armci.c
index 553247c..b7d90a4 100644
--- a/tcgmsg/tcgmsg-mpi/nxtval-armci.c
+++ b/tcgmsg/tcgmsg-mpi/nxtval-armci.c
@@ -51,20 +51,18 @@ long NXTVAL_(long *mproc)
         }
 
         if (*mproc < 0) {
-            rc=MPI_Barrier(TCGMSG_Comm); 
-            if(rc!=MPI_SUCCESS) {
-                Error("nxtval: barrier failed",0);
-            }
+            ARMCI_Group world;
+
+            /* unlike MPI_Barrier, serves the counter while it waits */
+            ARMCI_Group_get_world(&world);
+            armci_msg_group_barrier(&world);
 
             /* reset the counter value to zero */
             if( NODEID_() == server) {
                 *pnxtval_counter = 0;
             }
 
-            rc=MPI_Barrier(TCGMSG_Comm); 
-            if(rc!=MPI_SUCCESS) {
-                Error("nxtval: barrier failed",0);
-            }
+            armci_msg_group_barrier(&world);
         }
         if (*mproc > 0) {
 #if   SIZEOF_F77_INTEGER == SIZEOF_INT
-- 
2.43.0


From 36c2f750ede17fc592bd4f2ca5ed88cc0859c37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 051/107] fix: TCGMSG messages whose type equals the tag of
 ARMCI's own messages

TCGMSG shared ARMCI's communicator, so a message of type 27624 was taken
for an ARMCI request by the MPI two-sided port.
---
 tcgmsg/tcgmsg-mpi/misc.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tcgmsg/tcgmsg-mpi/misc.c b/tcgmsg/tcgmsg-mpi/misc.c
index 14d26bb..34035fe 100644
--- a/tcgmsg/tcgmsg-mpi/misc.c
+++ b/tcgmsg/tcgmsg-mpi/misc.c
@@ -99,13 +99,17 @@ void make_tcgmsg_comm()
         if (nxtval_installed)
 #endif
         {
-            ARMCI_Group group;
-            ARMCI_Group_get_world(&group);
+            /* a communicator of our own: the user's message types must not
+             * meet the tags ARMCI uses for its own messages */
+            if (TCGMSG_Comm == MPI_COMM_WORLD) {
+                ARMCI_Group group;
+                ARMCI_Group_get_world(&group);
 #   if HAVE_ARMCI_GROUP_COMM_MEMBER
-            TCGMSG_Comm = group.comm;
+                MPI_Comm_dup(group.comm, &TCGMSG_Comm);
 #   else
-            TCGMSG_Comm = armci_group_comm(&group);
+                MPI_Comm_dup(armci_group_comm(&group), &TCGMSG_Comm);
 #   endif
+            }
         }
         else
         {
-- 
2.43.0


From 97575b1b5e54b80ee06f7357530ed41aeb56d05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 052/107] fix: EAF_Eof never recognises the end of a file

Reads beyond the end of the file return ELIO's EOFFAIL, which EAF_Eof did
not know.  The Fortran eaf_eof, documented to be true at the end of the
file, returned the C convention (0 at the end of the file).
---
 pario/eaf/eaf.c     | 4 ++--
 pario/eaf/eaf_f2c.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index eb8aa33..0540c0a 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -57,7 +57,7 @@
 #   include <sys/time.h>
 #endif
 
-#include "elio.h"
+#include "eliop.h"
 #include "eaf.h"
 #include "eafP.h"
 #include "macdecls.h"
@@ -534,7 +534,7 @@ int EAF_Stat(const char *path, long *avail_mb, char *fstype, int fslen)
  */
 int EAF_Eof(int code)
 {
-    return !(code == EAF_ERR_EOF);
+    return !(code == EAF_ERR_EOF || code == EOFFAIL);
 }
 
 
diff --git a/pario/eaf/eaf_f2c.c b/pario/eaf/eaf_f2c.c
index b1afad3..bd22681 100644
--- a/pario/eaf/eaf_f2c.c
+++ b/pario/eaf/eaf_f2c.c
@@ -135,7 +135,7 @@ Integer FATR eaf_length_(Integer *fd, double *length)
 
 logical eaf_eof_(Integer *code)
 {
-    return (logical) EAF_Eof((int) *code);
+    return (logical) (EAF_Eof((int) *code) == 0);
 }
 
 
-- 
2.43.0


From 85e97c80ef0e39c6e49367333a257d2aee7636f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 053/107] fix: asynchronous EAF transfers and reads past the
 end of memory files

EAF_Probe never asked ELIO and reported the caller's uninitialized status.
On memory files EAF_Aread copied the buffer into the file, at offset 0;
EAF_Awrite returned the byte count as an error and no request; EAF_Wait
returned an uninitialized value; reads and asynchronous writes could run
past the end of the region.
---
 pario/eaf/eaf.c | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index 0540c0a..cccc946 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -306,13 +306,13 @@ int EAF_Awrite(
     if (!valid_fd(fd)) return EAF_ERR_INVALID_FD;
 
     if (file[fd].size > 0) {
-      if(offset>file[fd].size){
-	rc=0;
-	printf("eaf_awrite: offset %f larger than MA size %ld \n", offset, file[fd].size);
+      if((Integer)(offset+bytes)>file[fd].size){
+	printf("eaf_awrite: offset %f larger than MA size %ld \n", offset, (long)file[fd].size);
 	return EAF_ERR_WRITE;
       }else{
       memcpy(((char*)file[fd].pointer)+(long)offset, buf, bytes);
-      rc=bytes;
+      req=ELIO_DONE;
+      rc=0;
       }
     }else{
     rc = elio_awrite(file[fd].elio_fd, (Off_t)offset, buf, (Size_t)bytes, &req);
@@ -339,7 +339,7 @@ int EAF_Read(int fd, eaf_off_t offset, void *buf, size_t bytes)
     if (!valid_fd(fd)) return EAF_ERR_INVALID_FD;
     
     if (file[fd].size > 0) {
-      if(offset>file[fd].size){
+      if((Integer)(offset+bytes)>file[fd].size){
 	rc=0;
 	printf("eaf_read: offset %f larger than MA size %ld \n", offset, file[fd].size);
       }else{
@@ -377,12 +377,13 @@ int EAF_Aread(int fd, eaf_off_t offset, void *buf, size_t bytes, int *req_id)
     if (!valid_fd(fd)) return EAF_ERR_INVALID_FD;
 
     if (file[fd].size > 0) {
-      if(offset>file[fd].size){
+      if((Integer)(offset+bytes)>file[fd].size){
 	rc=0;
 	printf("eaf_aread: offset %f larger than MA size %ld \n", offset, file[fd].size);
         return EAF_ERR_READ;
       }else{
-      memcpy(file[fd].pointer, buf, bytes);
+      memcpy(buf, ((char*)file[fd].pointer)+(long)offset, bytes);
+      req=ELIO_DONE;
       rc=0;
       }
     }else{
@@ -406,7 +407,7 @@ int EAF_Aread(int fd, eaf_off_t offset, void *buf, size_t bytes, int *req_id)
 int EAF_Wait(int fd, int req_id)
 {
     double start = wall_time();
-    int code;
+    int code = EAF_OK;
 
     io_request_t req = req_id;
     if (file[fd].size > 0) {
@@ -430,16 +431,9 @@ int EAF_Probe(int req_id, int *status)
 {
     io_request_t req = req_id;
     int rc;
-#if 0
-    if (file[fd].size > 0) {
-      /* got nothin' to do */
-      rc=0;
-    }else{
+
+    /* requests on memory files are complete: their ID is ELIO_DONE */
     rc = elio_probe(&req, status);
-    }
-#else
-    rc=0;
-#endif
     if(!rc) *status = !(*status == ELIO_DONE);
     return rc;
 }
-- 
2.43.0


From 1e29d5c7d81bf0f81b0346f3ac3e2cfc16fc5a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 054/107] fix: EAF memory files in slots above a free one

EAF_Open looked for an existing memory file only in the slots below the
first free one, EAF_Delete only in as many slots as there are memory
files.  A memory file opened again could thus come back empty, and a
deleted one keep its memory and contents.
---
 pario/eaf/eaf.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index cccc946..85b3ea5 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -68,8 +68,6 @@
 #   define EAF_MAX_FILES 1024
 #endif
 
-static int eafhack_openfiles=0;
-
 static struct {
     char *fname;      /**< Filename --- if non-null is active*/
     Fd_t elio_fd;     /**< ELIO file descriptor */
@@ -149,8 +147,8 @@ int EAF_Open(const char *fname, int type, int *fd)
     if (i == EAF_MAX_FILES) return EAF_ERR_MAX_OPEN;
 	
     file[i].size=0;
-    for (j=0; j< i; j++){
-      if(strcmp(file[j].fname,fname) == 0 && file[j].size >0) {
+    for (j=0; j< EAF_MAX_FILES; j++){
+      if(file[j].fname && strcmp(file[j].fname,fname) == 0 && file[j].size >0) {
 	found=1;
 	break;
       }
@@ -172,7 +170,6 @@ int EAF_Open(const char *fname, int type, int *fd)
 
 	if (!MA_alloc_get(MT_CHAR, file[i].size, fname, &handle, &index))
 	  return EAF_ERR_OPEN;
-	if ((i +1) > eafhack_openfiles) eafhack_openfiles++;
     /* MA hack: we pass   type = sizeof MA alloc in megabytes */
 	MA_get_pointer(handle, &ptr);
     if (!(file[i].fname = strdup(fname)))
@@ -455,7 +452,7 @@ int EAF_Delete(const char *fname)
 
   int  j, found=0;
   /* get fd from fname */
-  for (j=0; (j< eafhack_openfiles); j++){
+  for (j=0; j< EAF_MAX_FILES; j++){
     if(file[j].fname){
       if(strcmp(file[j].fname,fname) == 0 && file[j].size >0) {
 	found=1;
@@ -477,6 +474,7 @@ int EAF_Delete(const char *fname)
 	   free(file[j].fname);
 	 };
 	 file[j].fname= NULL;
+	 file[j].size= 0;
            return EAF_OK;
        }else{
     /* Now that ELIO files can have extents must call its
-- 
2.43.0


From a28aa4e85b1f8778f6b0c7395e83728c471159c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 055/107] fix: the name of a disk resident array opened again
 ends in a newline

---
 pario/dra/disk.param.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pario/dra/disk.param.c b/pario/dra/disk.param.c
index 2a245d5..9ba0b91 100644
--- a/pario/dra/disk.param.c
+++ b/pario/dra/disk.param.c
@@ -125,6 +125,7 @@ int dai_read_param(char* filename,Integer d_a)
 
             fgets(dummy,HDLEN,fd); /*advance to next line*/
             if(!fgets(DRA[dra_hndl].name,DRA_MAX_NAME,fd))dai_error("dai_read_param:name",0);
+            DRA[dra_hndl].name[strcspn(DRA[dra_hndl].name,"\n")] = '\0';
 
             if(fclose(fd))dai_error("dai_read_param: fclose failed",0);
         }else rc = -1;
-- 
2.43.0


From 54f13530efa47ac699374de4894d7f75b218dd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:52 +0000
Subject: [PATCH 056/107] fix: DRA_Probe of no request writes outside the
 request table

---
 pario/dra/disk.arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pario/dra/disk.arrays.c b/pario/dra/disk.arrays.c
index 947d8a9..b70a4c8 100644
--- a/pario/dra/disk.arrays.c
+++ b/pario/dra/disk.arrays.c
@@ -1617,7 +1617,7 @@ Integer FATR dra_probe_(
 
     if(*request == DRA_REQ_INVALID || Requests[*request].num_pending ==0) {
         *status = ELIO_DONE;
-        ret = ELIO_OK;
+        return(ELIO_OK);
     }
 
     call_id = Requests[*request].call_id;  
-- 
2.43.0


From 4026a2ed1f5dcfd1bf822966f3a3f0e6c163412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:52 +0000
Subject: [PATCH 057/107] fix: DRA_Init with the default number of arrays
 allocates no table

---
 pario/dra/disk.arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pario/dra/disk.arrays.c b/pario/dra/disk.arrays.c
index b70a4c8..23da466 100644
--- a/pario/dra/disk.arrays.c
+++ b/pario/dra/disk.arrays.c
@@ -547,7 +547,7 @@ Integer FATR dra_init_(
 
     Dra_num_serv = drai_get_num_serv();
 
-    DRA = (disk_array_t*)malloc(sizeof(disk_array_t)* (int)*max_arrays);
+    DRA = (disk_array_t*)malloc(sizeof(disk_array_t)* (int)_max_disk_array);
     if(!DRA) dai_error("dra_init: memory alocation failed\n",0);
     for(i=0; i<_max_disk_array ; i++)DRA[i].actv=0;
 
-- 
2.43.0


From bef27730e107b50e89b9ae471b3fbd7fc77e2209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 058/107] fix: armci_msg_sel_scope takes values of processes
 that do not contribute, and aborts on long long

---
 comex/src-armci/message.c | 75 +++++++++++++++------------------------
 1 file changed, 29 insertions(+), 46 deletions(-)

diff --git a/comex/src-armci/message.c b/comex/src-armci/message.c
index f1ffcb8..102334a 100644
--- a/comex/src-armci/message.c
+++ b/comex/src-armci/message.c
@@ -6,6 +6,8 @@
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#include <limits.h>
+#include <math.h>
 
 #include <mpi.h>
 
@@ -23,9 +25,6 @@ static ARMCI_Group ARMCI_GROUP_SELF = -2;
 
 extern int ARMCI_Default_Proc_Group;
 
-/* for armci_msg_sel_scope */
-static MPI_Datatype MPI_LONGLONG_INT;
-
 /* Information on nodes */
 extern int _number_of_procs_per_node;
 extern int _my_node_id;
@@ -254,7 +253,6 @@ void armci_msg_bcast(void *buf, int len, int root)
  */
 void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int contribute)
 {
-    static int initialized = 0;
     MPI_Op mpi_op = MPI_OP_NULL;
     MPI_Comm comm = get_default_comm();
 
@@ -266,57 +264,42 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
       }
     }
 
-    /* first time this function is called we establish the
-     * long long w/ int type that MPI doesn't provide by default */
-    if (!initialized) {
-        int block[2];
-        MPI_Aint disp[2];
-        MPI_Datatype type[2];
-
-        initialized = 1;
-        type[0] = MPI_LONG_LONG;
-        type[1] = MPI_INT;
-        disp[0] = 0;
-        disp[1] = sizeof(long long);
-        block[0] = 1;
-        block[1] = 1;
-#if defined(MPI_VERSION) && (MPI_VERSION >= 2)
-        MPI_Type_create_struct(2, block, disp, type, &MPI_LONGLONG_INT);
-#else
-        MPI_Type_struct(2, block, disp, type, &MPI_LONGLONG_INT);
-#endif
-    }
-
     if (strncmp(op, "min", 3) == 0) {
-        mpi_op = MPI_MINLOC;
+        mpi_op = MPI_MIN;
     }
     else if (strncmp(op, "max", 3) == 0) {
-        mpi_op = MPI_MAXLOC;
+        mpi_op = MPI_MAX;
     }
     else {
         comex_error("unsupported armci_msg_sel_scope operation", 1);
     }
 
-#define SELECT(ARMCI_TYPE, C_TYPE, MPI_TYPE)                    \
-    if (type == ARMCI_TYPE) {                                   \
-        struct {                                                \
-            C_TYPE val;                                         \
-            int rank;                                           \
-        } in, out;                                              \
-        in.val = *((C_TYPE*)x);                                 \
-        in.rank = get_default_rank();                           \
-        if (SCOPE_NODE != scope) {                              \
-            comex_barrier(ARMCI_Default_Proc_Group);            \
-        }                                                       \
-        MPI_Allreduce(&in, &out, 1, MPI_TYPE, mpi_op, comm);    \
-        armci_msg_bcast(x, n, out.rank);                        \
-    }                                                           \
+    /* a process that does not contribute takes part with the value that loses
+     * against every other, and a rank above those of the contributors */
+#define SELECT(ARMCI_TYPE, C_TYPE, MPI_TYPE, LEAST, MOST)                   \
+    if (type == ARMCI_TYPE) {                                               \
+        C_TYPE val, best;                                                   \
+        int nproc, rank, root;                                              \
+        MPI_Comm_size(get_default_comm(), &nproc);                          \
+        val = (MPI_MIN == mpi_op) ? (MOST) : (LEAST);                       \
+        if (contribute) {                                                   \
+            val = *((C_TYPE*)x);                                            \
+        }                                                                   \
+        if (SCOPE_NODE != scope) {                                          \
+            comex_barrier(ARMCI_Default_Proc_Group);                        \
+        }                                                                   \
+        MPI_Allreduce(&val, &best, 1, MPI_TYPE, mpi_op, comm);              \
+        rank = get_default_rank() + (contribute ? 0 : nproc)                \
+             + ((val == best) ? 0 : 2*nproc);                               \
+        MPI_Allreduce(&rank, &root, 1, MPI_INT, MPI_MIN, comm);             \
+        armci_msg_bcast(x, n, root % nproc);                                \
+    }                                                                       \
     else
-    SELECT(ARMCI_INT,       int,        MPI_2INT)
-    SELECT(ARMCI_LONG,      long,       MPI_LONG_INT)
-    SELECT(ARMCI_LONG_LONG, long long,  MPI_LONGLONG_INT)
-    SELECT(ARMCI_FLOAT,     float,      MPI_FLOAT_INT)
-    SELECT(ARMCI_DOUBLE,    double,     MPI_DOUBLE_INT)
+    SELECT(ARMCI_INT,       int,        MPI_INT,        INT_MIN,   INT_MAX)
+    SELECT(ARMCI_LONG,      long,       MPI_LONG,       LONG_MIN,  LONG_MAX)
+    SELECT(ARMCI_LONG_LONG, long long,  MPI_LONG_LONG,  LLONG_MIN, LLONG_MAX)
+    SELECT(ARMCI_FLOAT,     float,      MPI_FLOAT,      -HUGE_VAL, HUGE_VAL)
+    SELECT(ARMCI_DOUBLE,    double,     MPI_DOUBLE,     -HUGE_VAL, HUGE_VAL)
     {
         comex_error("unsupported SELECT operation", 1);
     }
-- 
2.43.0


From a065df507beff50b9794eb6ba20e3f92f93f24a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 059/107] fix: NGA_Select_elem names a wrong element of
 block-cyclic arrays and rejects arrays that are not contiguous

---
 global/src/select.c | 52 +++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/global/src/select.c b/global/src/select.c
index e287928..5525add 100644
--- a/global/src/select.c
+++ b/global/src/select.c
@@ -285,36 +285,42 @@ void pnga_select_elem(Integer g_a, char* op, void* val, Integer *subscript)
   pnga_local_iterator_init(g_a, &hdl_a);
   while (pnga_local_iterator_next(&hdl_a, lo, hi, &cptr, ld)) {
     Integer update;
-    GET_ELEMS(ndim,lo,hi,ld,&elems);
-    participate =1;
-    ptr = (void*)cptr;
+    Integer slo[MAXDIM], nseg = 1, iseg, sizeof_type = GAsizeofM(type);
+    /* the block need not be contiguous: go through its columns */
+    elems = hi[0]-lo[0]+1;
+    for (i = 1; i < ndim; i++) nseg *= hi[i]-lo[i]+1;
+    for (iseg = 0; iseg < nseg && elems > 0; iseg++) {
+      Integer rest = iseg, offset = 0, stride = 1;
+      slo[0] = lo[0];
+      for (i = 1; i < ndim; i++) {
+        Integer extent = hi[i]-lo[i]+1;
+        stride *= ld[i-1];
+        offset += (rest%extent)*stride;
+        slo[i] = lo[i] + rest%extent;
+        rest /= extent;
+      }
+      participate =1;
+      ptr = (void*)(cptr + offset*sizeof_type);
+      ind = 0;
 
-    if (first_pass) {
-      /* select local element */
-      snga_select_elem(type, op, ptr, elems, &info, &ind);
+      if (first_pass) {
+        /* select local element */
+        snga_select_elem(type, op, ptr, elems, &info, &ind);
+        update = 1;
+      } else {
+        /* select local element */
+        snga_select_elem(type, op, ptr, elems, &new_info, &ind);
 
-      /* determine element subscript in the ndim-array */
-      for(i = 0; i < ndim; i++){
-        int elems = (int)( hi[i]-lo[i]+1);
-        info.subscr[i] = ind%elems + lo[i] ;
-        ind /= elems;
+        /* compare with old block */
+        snga_compare_elem(type,op, &new_info, &info, &update);
       }
-    } else {
-      /* select local element */
-      snga_select_elem(type, op, ptr, elems, &new_info, &ind);
-
-      /* compare with old block */
-      snga_compare_elem(type,op, &new_info, &info, &update);
       /* determine element subscript in the ndim-array */
       if (update) {
-        for(i = 0; i < ndim; i++){
-          int elems = (int)( hi[i]-lo[i]+1);
-          info.subscr[i] = ind%elems + lo[i] ;
-          ind /= elems;
-        }
+        for(i = 0; i < ndim; i++) info.subscr[i] = slo[i];
+        info.subscr[0] += ind;
       }
+      first_pass = 0;
     }
-    first_pass = 0;
   }
 #if 0
   if (num_blocks < 0) {
-- 
2.43.0


From a3c4570bf0c680ccec37605bd8b25c3ff8ead307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 060/107] fix: the second ga_bin_index places elements outside
 their bins

---
 global/src/sparse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sparse.c b/global/src/sparse.c
index 94929d2..e34c1c1 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -735,7 +735,7 @@ int len, lenmes, tag=32100, i, me=armci_msg_me();
     if (right > -1) armci_msg_snd(tag, offset, len, right);
     if (left > -1) {
             /* we saved num elems for right subtree to adjust offset for left*/
-            for(i=0; i<n; i++) workR[i] = offset[i] -workR[i]; 
+            for(i=0; i<n; i++) workR[i] = offset[i] - ((right > -1) ? workR[i] : 0);
             armci_msg_snd(tag, workR, len, left);
     }
 /*    printf("%d:left=%d right=%d up=%d root=%d off=%d\n",me,left, right,up,root,offset[0]);
-- 
2.43.0


From 888ffce2209a519a155c1d8f4cfa173d7d0e1c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 061/107] fix: ga_bin_sorter reads the bin ranges while they
 are written, and leaks them

---
 global/src/sparse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/global/src/sparse.c b/global/src/sparse.c
index e34c1c1..8d3717d 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -858,6 +858,7 @@ Integer g_range;
 
     if(FALSE==pnga_create_bin_range(g_bin, g_cnt, g_off, &g_range))
         pnga_error("ga_bin_sorter: failed to create temp bin range array",0); 
+    pnga_sync(); /* the ranges are written by the owners of the offsets */
 
     pnga_inquire(g_bin, &type, &ndim, &totbin);
     if(ndim !=1) pnga_error("ga_bin_sorter: 1-dim array required",ndim);
@@ -888,8 +889,10 @@ Integer g_range;
             ptr+=elems;
         }
         pnga_release_update(g_bin, &lo, &hi);             
+        free(bin_cnt);
     }
 
+    pnga_destroy(g_range);
     pnga_sync();
 }
 
-- 
2.43.0


From 16c50189a727cfad05bcc9882d94509c19212be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 062/107] fix: remember the memory limit when it is changed

A second change was computed relative to the first limit, not to the current
one, so the memory available afterwards did not match the limit.
---
 global/src/base.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 4e0ce3d..de73502 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -644,10 +644,11 @@ void pnga_set_memory_limit(Integer mem_limit)
   if(GA_memory_limited){
 
     /* if we had the limit set we need to adjust the amount available */
-    if (mem_limit>=0)
+    if (mem_limit>=0) {
       /* adjust the current value by diff between old and new limit */
       GA_total_memory += (mem_limit - GA_memory_limit);     
-    else{
+      GA_memory_limit = mem_limit;
+    } else{
 
       /* negative values reset limit to "unlimited" */
       GA_memory_limited =  0;     
-- 
2.43.0


From 8f7c0259cfb38b85a42b957052b7fb414c6a6f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 063/107] fix: count existing arrays when a memory limit is set

Destroying an array gives its memory back to the limit, so an array created
before the limit was set raised it.
---
 global/src/base.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/global/src/base.c b/global/src/base.c
index de73502..da41529 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -658,7 +658,16 @@ void pnga_set_memory_limit(Integer mem_limit)
   }else{
 
     GA_total_memory = GA_memory_limit  = mem_limit;
-    if(mem_limit >= 0) GA_memory_limited = 1;
+    if(mem_limit >= 0) {
+      GA_memory_limited = 1;
+      /* arrays that exist already count towards the limit (their memory is
+       * given back to it when they are destroyed) */
+      if (GAinitialized) {
+        Integer i;
+        for (i=0; i<_max_global_array; i++)
+          if (GA[i].actv && !GA[i].overlay) GA_total_memory -= GA[i].size;
+      }
+    }
   }
 }
 
-- 
2.43.0


From eb4277d3de83f0bb604c1267aab7ffe436af58dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 064/107] fix: free a read-only array before its process group

GA_Destroy of a READ_ONLY array destroyed the group first and then freed the
memory through, and synchronized on, the destroyed group.
---
 global/src/base.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/global/src/base.c b/global/src/base.c
index da41529..f87d766 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4029,10 +4029,11 @@ int local_sync_begin,local_sync_end;
 
     if (GA[ga_handle].property == READ_ONLY) {
       free(GA[ga_handle].old_mapc);
-      pnga_pgroup_destroy(GA[ga_handle].p_handle);
+      GA[ga_handle].old_mapc = NULL;
     }
 
     if(GA[ga_handle].ptr[grp_me]==NULL){
+       if (GA[ga_handle].property == READ_ONLY) pnga_pgroup_destroy(grp_id);
        return TRUE;
     } 
     if (!GA[ga_handle].overlay) {
@@ -4066,6 +4067,8 @@ int local_sync_begin,local_sync_end;
 
 
     if(local_sync_end)pnga_pgroup_sync(grp_id);
+    /* the memory of a read-only array belongs to the group created for it */
+    if (GA[ga_handle].property == READ_ONLY) pnga_pgroup_destroy(grp_id);
     return(TRUE);
 }
 
-- 
2.43.0


From 6a81cc4e1cb4b252fdbdcababd1546e2e9c35d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 065/107] fix: a duplicate does not share the read cache of its
 source

The list of cached patches was copied by pointer: the duplicate returned data
of the source array, and both arrays freed the list.
---
 global/src/base.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/base.c b/global/src/base.c
index f87d766..2e43a05 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3803,6 +3803,7 @@ logical pnga_duplicate(Integer g_a, Integer *g_b, char* array_name)
   }
 
   GA[ga_handle].cache = NULL;
+  GA[ga_handle].cache_head = NULL; /* cached data belongs to g_a */
 
   /*** initialize and copy info for restricted arrays, if relevant ***/
   GA[ga_handle].rstrctd_list = NULL;
-- 
2.43.0


From bbac55f9785ce137fa8f6a2a379278856c65608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 066/107] fix: GA_Assemble_duplicate does not share structures
 with its source

Ghost cell information and the lists of restricted processes were copied by
pointer and freed by both arrays.
---
 global/src/base.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index 2e43a05..2e57c9d 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3945,6 +3945,16 @@ int maplen = calc_maplen(GA_OFFSET + g_a);
         GA[ga_handle].mapc[maplen] = -1;
       }
 
+      /* structures owned by g_a are not shared */
+      GA[ga_handle].cache = NULL;
+      GA[ga_handle].cache_head = NULL;
+      GA[ga_handle].rstrctd_list = NULL;
+      GA[ga_handle].rank_rstrctd = NULL;
+      if (GA[ga_handle].num_rstrctd > 0) {
+        pnga_set_restricted((Integer)g_b, GA[GA_OFFSET + g_a].rstrctd_list,
+            GA[GA_OFFSET + g_a].num_rstrctd);
+      }
+
       /* get ptrs and datatype from user memory */
       gam_checktype(pnga_type_f2c(info->type));
       GA[ga_handle].type = pnga_type_f2c(info->type);
@@ -3952,6 +3962,9 @@ int maplen = calc_maplen(GA_OFFSET + g_a);
       GA[ga_handle].id = info->id;
       memcpy(GA[ga_handle].ptr,ptr_arr,(size_t)GAnproc*sizeof(char**));
 
+      /* ghost cell information refers to the addresses of the data */
+      if (GA[ga_handle].ghosts == 1) pnga_set_ghost_info((Integer)g_b);
+
       GAstat.curmem += (long)GA[ga_handle].size;
       GAstat.maxmem  = (long)GA_MAX(GAstat.maxmem, GAstat.curmem);
 
-- 
2.43.0


From b0ad457d441479785216719827b20fd615b88c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 067/107] fix: gather and scatter of empty global pointer
 elements free unset pointers

---
 gparrays/src/gponesided.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gparrays/src/gponesided.c b/gparrays/src/gponesided.c
index be48dd5..2d842a7 100644
--- a/gparrays/src/gponesided.c
+++ b/gparrays/src/gponesided.c
@@ -812,7 +812,8 @@ void pgp_gather(Integer g_p, Integer nv, Integer *subscript, void *buf,
 #endif
 
       /* free arrays */
-      for (j=0; j<nelems[iproc]; j++) {
+      while (j > 0) {
+        j--;
         free(src_array[j]);
         free(dst_array[j]);
       }
@@ -984,7 +985,8 @@ void pgp_scatter(Integer g_p, Integer nv, Integer *subscript, void **buf_ptr,
 #endif
 
       /* free arrays */
-      for (j=0; j<nelems[iproc]; j++) {
+      while (j > 0) {
+        j--;
         free(src_array[j]);
         free(dst_array[j]);
       }
-- 
2.43.0


From 29e7032ce81bbb2540be3837d580b345736a0bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 068/107] fix: gather and scatter of global pointer arrays
 return a wrong size

---
 gparrays/src/gponesided.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gparrays/src/gponesided.c b/gparrays/src/gponesided.c
index 2d842a7..85524fe 100644
--- a/gparrays/src/gponesided.c
+++ b/gparrays/src/gponesided.c
@@ -831,7 +831,11 @@ void pgp_gather(Integer g_p, Integer nv, Integer *subscript, void *buf,
   
   *size = 0;
   for (i=0; i<nv; i++) {
-    *size += ((Integer*)buf_size)[i];
+    if (intsize == 4) {
+      *size += (Integer)((int*)buf_size)[i];
+    } else {
+      *size += (Integer)((int64_t*)buf_size)[i];
+    }
   }
 }
 
@@ -1004,6 +1008,10 @@ void pgp_scatter(Integer g_p, Integer nv, Integer *subscript, void **buf_ptr,
   
   *size = 0;
   for (i=0; i<nv; i++) {
-    *size += (Integer)((Integer*)buf_size)[i];
+    if (intsize == 4) {
+      *size += (Integer)((int*)buf_size)[i];
+    } else {
+      *size += (Integer)((int64_t*)buf_size)[i];
+    }
   }
 }
-- 
2.43.0


From be3166b6e731501d8beb948fb3f1d116404f8160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 069/107] fix: processes without elements cannot access a
 global pointer array

---
 gparrays/src/gponesided.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gparrays/src/gponesided.c b/gparrays/src/gponesided.c
index 85524fe..cbe39d2 100644
--- a/gparrays/src/gponesided.c
+++ b/gparrays/src/gponesided.c
@@ -90,7 +90,7 @@ void pgp_get_size(Integer g_p, Integer *lo, Integer *hi,
   }
   ndim = pnga_ndim(GP[handle].g_ptr_array);
   for (i=0; i<ndim; i++) {
-    if (GP[handle].lo[i] > GP[handle].hi[i])
+    if (lo[i] > hi[i])
       pnga_error("gp_get_size: illegal block size specified", g_p);
   }
 
@@ -172,7 +172,7 @@ void pgp_get(Integer g_p, Integer *lo, Integer *hi, void *buf,
   }
   ndim = pnga_ndim(GP[handle].g_ptr_array);
   for (i=0; i<ndim; i++) {
-    if (GP[handle].lo[i] > GP[handle].hi[i])
+    if (lo[i] > hi[i])
       pnga_error("gp_get: illegal block size specified", g_p);
   }
   /*bjp
@@ -403,7 +403,7 @@ void pgp_put(Integer g_p, Integer *lo, Integer *hi, void **buf_ptr,
   }
   ndim = pnga_ndim(GP[handle].g_ptr_array);
   for (i=0; i<ndim; i++) {
-    if (GP[handle].lo[i] > GP[handle].hi[i])
+    if (lo[i] > hi[i])
       pnga_error("gp_put: illegal block size specified", g_p);
   }
 
-- 
2.43.0


From 17a4044b0b21bcea18a0ec2fe5a4ed710a229188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 070/107] fix: put, and get into given buffers, of global
 pointer arrays do not return the size

---
 gparrays/src/gponesided.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gparrays/src/gponesided.c b/gparrays/src/gponesided.c
index cbe39d2..d0b3f27 100644
--- a/gparrays/src/gponesided.c
+++ b/gparrays/src/gponesided.c
@@ -202,7 +202,7 @@ void pgp_get(Integer g_p, Integer *lo, Integer *hi, void *buf,
   /*bjp
     printf("p[%d] ld[0]: %d ld_sz[0]: %d\n",me,ld[0],ld_sz[0]);
    */
-  while(idx<nelems && !setbuf) {
+  while(idx<nelems) {
     /* find local index for idx in the requested block */
     itmp = idx;
     for (j=0; j<ndim-1; j++) {
@@ -219,7 +219,7 @@ void pgp_get(Integer g_p, Integer *lo, Integer *hi, void *buf,
       offset_d = offset_d*ld[d] + index[d];
     }
     /* evaluate offset in data buffer */
-    buf_ptr[offset_d] = (void*)(((char*)buf)+offset_ptr);
+    if (!setbuf) buf_ptr[offset_d] = (void*)(((char*)buf)+offset_ptr);
     if (intsize == 4) {
       offset_ptr += ((int*)buf_size)[offset_sz];
     } else {
@@ -507,6 +507,7 @@ void pgp_put(Integer g_p, Integer *lo, Integer *hi, void **buf_ptr,
       } else {
         bytes = (int)((int64_t*)buf_size)[offset_sz];
       }
+      offset_ptr += bytes;
       if (bytes > 0) {
         if (rem_ptr[offset_rem].cpid == me) {
           (dst_array[j])[0] = ((void*)(rem_ptr[offset_rem].addr));
@@ -551,6 +552,7 @@ void pgp_put(Integer g_p, Integer *lo, Integer *hi, void **buf_ptr,
     free(rem_ptr);
     free(desc);
   }
+  *size = offset_ptr;
   free(src_array);
   free(dst_array);
 }
-- 
2.43.0


From 50caf814815ac695397f9e3e66840a1617c70ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 071/107] fix: get and put of global pointer arrays leak memory

---
 gparrays/src/gponesided.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gparrays/src/gponesided.c b/gparrays/src/gponesided.c
index d0b3f27..c86b08f 100644
--- a/gparrays/src/gponesided.c
+++ b/gparrays/src/gponesided.c
@@ -352,7 +352,7 @@ void pgp_get(Integer g_p, Integer *lo, Integer *hi, void *buf,
       if (rc) pnga_error("ARMCI_GetV failure in gp_get",rc);
     }
 #endif
-    for (j=0; j<jcnt; j++) {
+    for (j=0; j<nelems; j++) {
       free(src_array[j]);
       free(dst_array[j]);
     }
@@ -544,17 +544,17 @@ void pgp_put(Integer g_p, Integer *lo, Integer *hi, void **buf_ptr,
       if (rc) pnga_error("ARMCI_PutV failure in gp_put",rc);
     }
 #endif
-    for (j=0; j<jcnt; j++) {
+    for (j=0; j<nelems; j++) {
       free(src_array[j]);
       free(dst_array[j]);
     }
     /* Free temporary buffers */
     free(rem_ptr);
     free(desc);
+    free(src_array);
+    free(dst_array);
   }
   *size = offset_ptr;
-  free(src_array);
-  free(dst_array);
 }
 
 /**
-- 
2.43.0


From bcca37c5d9fb1a155873bcd5ed04d3a65283d814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:21 +0000
Subject: [PATCH 072/107] fix: the size check of global pointer puts ignores
 the leading dimensions of the size buffer

---
 gparrays/src/gponesided.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/gparrays/src/gponesided.c b/gparrays/src/gponesided.c
index c86b08f..6a6edd1 100644
--- a/gparrays/src/gponesided.c
+++ b/gparrays/src/gponesided.c
@@ -425,14 +425,22 @@ void pgp_put(Integer g_p, Integer *lo, Integer *hi, void **buf_ptr,
       tmpsize64 = (int64_t*)malloc(nelems*sizeof(int64_t));
       pnga_get(GP[handle].g_size_array, lo, hi, tmpsize64, block_ld);
     }
-    if (intsize == 4) {
-      for (i=0; i<nelems; i++) {
-        if (tmpsize32[i] != (int)((int*)buf_size)[i])
-          pnga_error("gp_put: mismatch in element sizes", i);
+    for (i=0; i<nelems; i++) {
+      /* offset of element in buf_size, which may have larger dimensions */
+      itmp = i;
+      for (d=0; d<ndim-1; d++) {
+        index[d] = itmp%block_ld[d];
+        itmp = (itmp - index[d])/block_ld[d];
       }
-    } else {
-      for (i=0; i<nelems; i++) {
-        if (tmpsize64[i] != (int64_t)((int64_t*)buf_size)[i])
+      offset_sz = itmp;
+      for (d=ndim-2; d>=0; d--) {
+        offset_sz = offset_sz*ld_sz[d] + index[d];
+      }
+      if (intsize == 4) {
+        if (tmpsize32[i] != (int)((int*)buf_size)[offset_sz])
+          pnga_error("gp_put: mismatch in element sizes", i);
+      } else {
+        if (tmpsize64[i] != (int64_t)((int64_t*)buf_size)[offset_sz])
           pnga_error("gp_put: mismatch in element sizes", i);
       }
     }
-- 
2.43.0


From 546adc74a03bd16348b07829b0be678d35c6b491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:52 +0000
Subject: [PATCH 073/107] fix: GP_Memzero aborts on processes without elements

---
 gparrays/src/gpbase.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gparrays/src/gpbase.c b/gparrays/src/gpbase.c
index a0a3dfa..a803cd3 100644
--- a/gparrays/src/gpbase.c
+++ b/gparrays/src/gpbase.c
@@ -498,8 +498,17 @@ void pgp_memzero(Integer g_p, Integer intsize)
   pgp_distribution(g_p, me, lo, hi);
   nelems = 1;
   for (i=0; i<ndim; i++) {
+    if (hi[i] < lo[i]) {
+      nelems = 0;
+      break;
+    }
     nelems *= (hi[i]-lo[i]+1);
   }
+  /* processes without elements have nothing to clear */
+  if (nelems == 0) {
+    pnga_sync();
+    return;
+  }
 
   /* Get pointers to local data elements and their sizes */
   pnga_access_ptr(GP[handle].g_ptr_array,lo,hi,&gp_ptr,ld);
-- 
2.43.0


From f2c062396501c65133718fa7be75804a3c9da3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:52 +0000
Subject: [PATCH 074/107] fix: ga_zero_patch (Fortran) passes the upper column
 bound as the lower one

---
 global/src/fapi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/fapi.c b/global/src/fapi.c
index b5c2cbf..5957d7e 100644
--- a/global/src/fapi.c
+++ b/global/src/fapi.c
@@ -2641,7 +2641,7 @@ void FATR ga_zero_patch_(Integer *g_a, Integer *ilo, Integer *ihi, Integer *jlo,
     Integer lo[2], hi[2];
 
     lo[0] = *ilo; lo[1] = *jlo;
-    hi[0] = *ihi; lo[1] = *jhi;
+    hi[0] = *ihi; hi[1] = *jhi;
     wnga_zero_patch(*g_a, lo, hi);
 }
 
-- 
2.43.0


From e04d193dbab906813ddd6e91f36aa59258f64b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:52 +0000
Subject: [PATCH 075/107] fix: the Fortran integer scale calls reject every
 array type

---
 global/src/fapi.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/global/src/fapi.c b/global/src/fapi.c
index 5957d7e..d2e542f 100644
--- a/global/src/fapi.c
+++ b/global/src/fapi.c
@@ -2423,7 +2423,7 @@ void FATR ga_iscale_(Integer *g_a, Integer* alpha)
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong type ", 0L);
     wnga_scale(*g_a, alpha);
 }
@@ -2433,7 +2433,7 @@ void FATR ga_iscal_(Integer *g_a, Integer* alpha)
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong type ", 0L);
     wnga_scale(*g_a, alpha);
 }
@@ -2502,7 +2502,7 @@ void FATR nga_iscale_(Integer *g_a, Integer* alpha)
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong type ", 0L);
     wnga_scale(*g_a, alpha);
 }
@@ -2929,7 +2929,7 @@ void FATR ga_iscal_patch_(Integer *g_a, Integer *ilo, Integer *ihi, Integer *jlo
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong types ", 0L);
     sga_scale_patch(*g_a, ilo, ihi, jlo, jhi, alpha);
 }
@@ -2980,7 +2980,7 @@ void FATR nga_iscale_patch_(Integer *g_a, Integer *lo, Integer *hi, Integer *alp
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong types ", 0L);
     wnga_scale_patch(*g_a, lo, hi, alpha);
 }
-- 
2.43.0


From 6538d7a063cf685c1d2f52f8e0baeef89d98d692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:52 +0000
Subject: [PATCH 076/107] fix: get_array_name fails for allocated arrays and
 returns nothing to Fortran

---
 global/src/base.c | 4 +---
 global/src/fapi.c | 8 ++++----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 2e57c9d..ce45503 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1637,10 +1637,8 @@ void pnga_set_array_name(Integer g_a, char *array_name)
 void pnga_get_array_name(Integer g_a, char *array_name)
 {
   Integer ga_handle = g_a + GA_OFFSET;
-  if (GA[ga_handle].actv == 1)
+  if (GA[ga_handle].actv != 1)
     pnga_error("Cannot get array name on array that has not been allocated",0);
-  if (strlen(array_name) > FNAM)
-    pnga_error("Array name exceeds maximum array name length",FNAM);
   strcpy(array_name, GA[ga_handle].name);
 }
 
diff --git a/global/src/fapi.c b/global/src/fapi.c
index d2e542f..5e14f54 100644
--- a/global/src/fapi.c
+++ b/global/src/fapi.c
@@ -921,16 +921,16 @@ void FATR nga_set_array_name_(Integer *g_a, char *array_name, int slen)
 
 void FATR ga_get_array_name_(Integer *g_a, char *array_name, int slen)
 {
-  char buf[FNAM];
-  ga_f2cstring(array_name ,slen, buf, FNAM);
+  char buf[FNAM+1];
   wnga_get_array_name(*g_a, buf);
+  ga_c2fstring(buf, array_name, slen);
 }
 
 void FATR nga_get_array_name_(Integer *g_a, char *array_name, int slen)
 {
-  char buf[FNAM];
-  ga_f2cstring(array_name ,slen, buf, FNAM);
+  char buf[FNAM+1];
   wnga_get_array_name(*g_a, buf);
+  ga_c2fstring(buf, array_name, slen);
 }
 
 void FATR ga_set_block_cyclic_(Integer *g_a, Integer *dims)
-- 
2.43.0


From f4bc6b3781f57d2372011a92762398bed57ef940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:52 +0000
Subject: [PATCH 077/107] fix: deleting a destroyed GlobalArray destroys the
 first array

---
 ga++/src/GlobalArray.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ga++/src/GlobalArray.cc b/ga++/src/GlobalArray.cc
index 6d0bfd8..471c2de 100644
--- a/ga++/src/GlobalArray.cc
+++ b/ga++/src/GlobalArray.cc
@@ -5,7 +5,7 @@
 #include "ga++.h"
 
 #define GA_DATA_TYPE     C_DBL
-#define INVALID_HANDLE   -1000
+#define INVALID_HANDLE   -1000000 /* below every valid handle */
 
 static int sTmpVar = 0;
 
@@ -152,7 +152,7 @@ GA::GlobalArray::GlobalArray() {
 }
 
 GA::GlobalArray::~GlobalArray() {
-  GA_Destroy(mHandle); 
+  if(mHandle != INVALID_HANDLE) GA_Destroy(mHandle); 
   mHandle = INVALID_HANDLE;
 }
 
-- 
2.43.0


From cc3fbd89de7d5fb82efe1199c549d0c9883519be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:15 +0000
Subject: [PATCH 078/107] fix: PGroup::setDefault does not set the default
 group

---
 ga++/src/PGroup.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ga++/src/PGroup.cc b/ga++/src/PGroup.cc
index 8cf3ad4..4d4c10d 100644
--- a/ga++/src/PGroup.cc
+++ b/ga++/src/PGroup.cc
@@ -37,8 +37,8 @@ GA::PGroup::getDefault()
     if(pgDefault == NULL) 
     {
        pgDefault = new PGroup();
-       pgDefault->mPHandle = GA_Pgroup_get_default();
     }
+    pgDefault->mPHandle = GA_Pgroup_get_default();
     return pgDefault;
 }
 
@@ -85,7 +85,7 @@ GA::PGroup::self()
 void
 GA::PGroup::setDefault(GA::PGroup* p_handle) 
 {
-    pgDefault->mPHandle = p_handle->mPHandle;
+    GA_Pgroup_set_default(p_handle->mPHandle);
 }
 
 void
-- 
2.43.0


From 5736e8c75a8589ffc9c92c1aba8974154f6d93f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:15 +0000
Subject: [PATCH 079/107] fix: operator== of GlobalArray compares the sum of
 the extents instead of all elements

---
 ga++/src/overload.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ga++/src/overload.cc b/ga++/src/overload.cc
index cf4e4b3..57c3a07 100644
--- a/ga++/src/overload.cc
+++ b/ga++/src/overload.cc
@@ -51,13 +51,13 @@ GA::GlobalArray::operator==(const GA::GlobalArray &g_a) const {
     void *ptr1 = NULL, *ptr2 = NULL;
     int ld1[GA_MAX_DIM];
     int ld2[GA_MAX_DIM];
-    int num = 0;
+    int num = 1;
 
     NGA_Access(mHandle, alo, ahi, &ptr1, ld1);
     NGA_Access(g_a.mHandle, blo, bhi, &ptr2, ld2);
 
     // number of elements I own.
-    for(i=0; i<ndim1; i++) num += ahi[i] - alo[i] + 1;
+    for(i=0; i<ndim1; i++) num *= ahi[i] - alo[i] + 1;
     
     for(i=0; i<num; i++)
       switch (type1) {
-- 
2.43.0


From b47794fe8177f09187fb2b34c3930baf00a88244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:15 +0000
Subject: [PATCH 080/107] fix: operator== of GlobalArray finds long long and
 single complex arrays always equal

---
 ga++/src/overload.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ga++/src/overload.cc b/ga++/src/overload.cc
index 57c3a07..c631e6c 100644
--- a/ga++/src/overload.cc
+++ b/ga++/src/overload.cc
@@ -67,6 +67,9 @@ GA::GlobalArray::operator==(const GA::GlobalArray &g_a) const {
       case C_LONG:
 	if(((long *)ptr1)[i] != ((long *)ptr2)[i]) isEqual = FALSE;
 	break;
+      case C_LONGLONG:
+	if(((long long *)ptr1)[i] != ((long long *)ptr2)[i]) isEqual = FALSE;
+	break;
       case C_FLOAT:
 	if(((float *)ptr1)[i] != ((float *)ptr2)[i]) isEqual = FALSE;
 	break;
@@ -78,6 +81,13 @@ GA::GlobalArray::operator==(const GA::GlobalArray &g_a) const {
 	   ((DoubleComplex *)ptr2)[i].real) isEqual = FALSE;
 	if(((DoubleComplex *)ptr1)[i].imag !=
 	   ((DoubleComplex *)ptr2)[i].imag) isEqual = FALSE;
+	break;
+      case C_SCPL: 
+	if(((SingleComplex *)ptr1)[i].real !=
+	   ((SingleComplex *)ptr2)[i].real) isEqual = FALSE;
+	if(((SingleComplex *)ptr1)[i].imag !=
+	   ((SingleComplex *)ptr2)[i].imag) isEqual = FALSE;
+	break;
       }
     NGA_Release(mHandle, alo, ahi);
     NGA_Release(g_a.mHandle, blo, bhi);
-- 
2.43.0


From ff56b1d53fcf303099ffd2a27386d5a3f7756e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:15 +0000
Subject: [PATCH 081/107] fix: ga_scatter_acc permutes the caller's values and
 subscripts

---
 global/src/onesided.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 048438b..a4d3d61 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -2681,7 +2681,8 @@ void pnga_scatter_acc2d(g_a, v, i, j, nv, alpha)
 register Integer k;
 Integer item_size;
 Integer first, nelem, proc, type=GA[GA_OFFSET + g_a].type;
-Integer *int_ptr;
+Integer *int_ptr, *buf;
+void *v_in = v;
 Integer subscrpt[2];
 
   if (nv < 1) return;
@@ -2707,7 +2708,14 @@ Integer subscrpt[2];
   item_size = GAsizeofM(type);
   GAbytes.scatot += (double)item_size*nv ;
 
-  /* Sort the entries by processor */
+  /* Sort copies of the entries by processor */
+  buf = (Integer*) pnga_malloc(2*nv, MT_F_INT, "ga_scatter_acc--ij");
+  v = pnga_malloc(nv, type, "ga_scatter_acc--v");
+  memcpy(v, v_in, item_size*nv);
+  memcpy(buf, i, nv*sizeof(Integer));
+  memcpy(buf+nv, j, nv*sizeof(Integer));
+  i = buf;
+  j = buf+nv;
   ga_sort_scat(&nv, v, i, j, int_ptr, type );
 
   /* go through the list again executing scatter for each processor */
@@ -2733,6 +2741,8 @@ Integer subscrpt[2];
 
   }while (first< nv);
 
+  pnga_free(v);
+  pnga_free(buf);
   pnga_free(int_ptr);
 
 }
-- 
2.43.0


From 193ce585105000ebb5f8112f613505e81e2b2031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 082/107] fix: NGA_Sprs_array_get_block returned arbitrary
 pointers for a block without data

---
 global/src/sparse.array.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 9091eb4..cbf778b 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -2256,9 +2256,9 @@ logical pnga_sprs_array_get_block(Integer s_a, Integer irow, Integer icol,
     */
   } else {
     /* block has no data */
-    *idx == NULL;
-    *jdx == NULL;
-    *data == NULL;
+    *idx = NULL;
+    *jdx = NULL;
+    *data = NULL;
     ret = 0;
   }
   return ret;
-- 
2.43.0


From a60c1758a1377374bb94e913df3c54bab1aa7f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 083/107] fix: NGA_Sprs_array_scale aborted on a process that
 holds no elements

---
 global/src/sparse.array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index cbf778b..f004fa4 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -4255,7 +4255,7 @@ void pnga_sprs_array_scale(Integer s_a, void *scale)
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
   if (local_sync_begin) pnga_pgroup_sync(SPA[hdl_a].grp);
   pnga_distribution(SPA[hdl_a].g_data,me,&s_lo,&s_hi);
-  pnga_access_ptr(SPA[hdl_a].g_data,&s_lo,&s_hi,&vptr,&ld);
+  if (s_lo <= s_hi) pnga_access_ptr(SPA[hdl_a].g_data,&s_lo,&s_hi,&vptr,&ld);
   if (SPA[hdl_a].type == C_INT) {
     SPRS_REAL_SCALE_M(int,vptr,s_lo,s_hi,scale);
   } else if (SPA[hdl_a].type == C_LONG) {
-- 
2.43.0


From 6a903b81b8551161bcf53ef92cf598be217a1053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 084/107] fix: NGA_Sprs_array_duplicate leaked the insertion
 buffers of the new array

---
 global/src/sparse.array.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index f004fa4..4a29577 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -2146,6 +2146,9 @@ Integer pnga_sprs_array_duplicate(Integer s_a)
   SPA[new_hdl].max_nnz = SPA[hdl].max_nnz;
   SPA[new_hdl].ready = SPA[hdl].ready;
   SPA[new_hdl].grp = SPA[hdl].grp;
+  free(SPA[new_hdl].val);
+  free(SPA[new_hdl].idx);
+  free(SPA[new_hdl].jdx);
   SPA[new_hdl].val = NULL;
   SPA[new_hdl].idx = NULL;
   SPA[new_hdl].jdx = NULL;
-- 
2.43.0


From b5abacf433be10ad6e12166a6153b8cd2f2331f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 085/107] fix: NGA_Sprs_array_get_diag looked only in one
 column block and dereferenced NULL when that block is empty

---
 global/src/sparse.array.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 4a29577..6a3a53b 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1605,7 +1605,7 @@ void pnga_sprs_array_get_diag(Integer s_a, Integer *g_d)
   Integer nproc = pnga_pgroup_nnodes(grp);
   Integer iproc;
   Integer one = 1;
-  Integer lo, hi;
+  Integer lo, hi, ld;
   Integer ilo, ihi, jlo, jhi, ncols;
   int *iptr, *jptr;
   int64_t *ilptr, *jlptr;
@@ -1640,12 +1640,14 @@ void pnga_sprs_array_get_diag(Integer s_a, Integer *g_d)
    * must be zero */
   pnga_zero(*g_d);
   pnga_distribution(*g_d,me,&lo,&hi);
-  pnga_access_ptr(*g_d, &lo, &hi, &diag, &one);
+  pnga_access_ptr(*g_d, &lo, &hi, &diag, &ld);
   /* extract diagonal elements */
   pnga_sprs_array_row_distribution(s_a,me,&ilo,&ihi);
-  pnga_sprs_array_column_distribution(s_a,me,&jlo,&jhi);
+  /* the diagonal may cross several column blocks of a non-square matrix */
+  for (iproc=0; iproc<nproc; iproc++) {
   if (idx_size == 4) {
-    pnga_sprs_array_access_col_block(s_a,me,&iptr,&jptr,&vptr);
+    pnga_sprs_array_access_col_block(s_a,iproc,&iptr,&jptr,&vptr);
+    if (vptr == NULL) continue;
     for (i=ilo; i<=ihi; i++) {
       ncols = iptr[i+1-ilo]-iptr[i-ilo];
       for (j=0; j<ncols; j++) {
@@ -1669,7 +1671,8 @@ void pnga_sprs_array_get_diag(Integer s_a, Integer *g_d)
       }
     }
   } else {
-    pnga_sprs_array_access_col_block(s_a,me,&ilptr,&jlptr,&vptr);
+    pnga_sprs_array_access_col_block(s_a,iproc,&ilptr,&jlptr,&vptr);
+    if (vptr == NULL) continue;
     for (i=ilo; i<=ihi; i++) {
       ncols = ilptr[i+1-ilo]-ilptr[i-ilo];
       for (j=0; j<ncols; j++) {
@@ -1693,6 +1696,7 @@ void pnga_sprs_array_get_diag(Integer s_a, Integer *g_d)
       }
     }
   }
+  }
   free(map);
   pnga_release_update(*g_d, &lo, &hi);
   if (local_sync_end) pnga_pgroup_sync(grp);
-- 
2.43.0


From 762dd9533741dea85056df2dc3707137327e5867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 086/107] fix: NGA_Sprs_array_diag_right_multiply compared the
 vector with the number of rows

---
 global/src/sparse.array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 6a3a53b..518d739 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1862,7 +1862,7 @@ void pnga_sprs_array_diag_right_multiply(Integer s_a, Integer g_d)
   if (local_sync_begin) pnga_pgroup_sync(grp);
 
   /* check for basic compatibility */
-  if (SPA[hdl].idim != GA[d_hdl].dims[0]) {
+  if (SPA[hdl].jdim != GA[d_hdl].dims[0]) {
     pnga_error("(pnga_sprs_array_diag_right_multiply) dimensions don't match",0);
   }
   if (type != GA[d_hdl].type) {
-- 
2.43.0


From d2c5a350642c7db1699c2be2055e3f2f2c251d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 087/107] fix: NGA_Sprs_array_matvec_multiply required a
 product vector as long as the matrix is wide

---
 global/src/sparse.array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 518d739..d27c7b6 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1174,8 +1174,8 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
   if (adim != SPA[s_hdl].jdim) {
     pnga_error("length of A must equal second dimension of sparse matrix",adim);
   }
-  if (vdim != SPA[s_hdl].jdim) {
-    pnga_error("length of V must equal second dimension of sparse matrix",vdim);
+  if (vdim != SPA[s_hdl].idim) {
+    pnga_error("length of V must equal first dimension of sparse matrix",vdim);
   }
   if (atype != SPA[s_hdl].type || vtype != SPA[s_hdl].type) {
     pnga_error("Data type of sparse matrix and A and V vectors must match",
-- 
2.43.0


From 99be839f54dc6dd42034de56cfe24af8796e1335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 088/107] fix: NGA_Sprs_array_matvec_multiply of complex
 matrices kept one term and ignored the matrix elements

---
 global/src/sparse.array.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index d27c7b6..886ffa3 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1234,10 +1234,10 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
       for (j=0; j<ncols; j++) {                                \
             rbuf = _buf[2*(_jptr[_iptr[i-ilo]+j]-jlo)];        \
             ibuf = _buf[2*(_jptr[_iptr[i-ilo]+j]-jlo)+1];      \
-            rval = _buf[2*(_iptr[i-ilo]+j)];                   \
-            ival = _buf[2*(_iptr[i-ilo]+j)+1];                 \
-            _sum[2*(i-ilo)] = rval*rbuf-ival*ibuf;             \
-            _sum[2*(i-ilo)+1] = rval*ibuf+ival*rbuf;           \
+            rval = _ptr[2*(_iptr[i-ilo]+j)];                   \
+            ival = _ptr[2*(_iptr[i-ilo]+j)+1];                 \
+            _sum[2*(i-ilo)] += rval*rbuf-ival*ibuf;            \
+            _sum[2*(i-ilo)+1] += rval*ibuf+ival*rbuf;          \
       }                                                        \
     }                                                          \
     free(_buf);                                                \
-- 
2.43.0


From 8993e39449752e5f4cb2db8cfdb27ec14f8cd5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 089/107] fix: NGA_Sprs_array_matvec_multiply scaled the
 product by a double precision one of the wrong type and added uninitialised
 memory

---
 global/src/sparse.array.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 886ffa3..41e9349 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1154,7 +1154,6 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
   int64_t *ilptr = NULL, *jlptr = NULL;
   int *iptr = NULL, *jptr = NULL;
   Integer i, j, iproc, ncols;
-  double one_r = 1.0;
   Integer one = 1;
   Integer adim, vdim, arank, vrank, dims[GA_MAX_DIM];
   Integer atype, vtype;
@@ -1298,7 +1297,9 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
   if (ihi>=ilo) {
     klo = ilo + 1;
     khi = ihi + 1;
-    pnga_acc(g_v,&klo,&khi,vsum,&one,&one_r);
+    /* every row belongs to one process, so the sums are complete. A row block
+     * without data leaves the zeros in place */
+    if (!zflag) pnga_put(g_v,&klo,&khi,vsum,&one);
   }
   if (local_sync_end)  pnga_pgroup_sync(s_grp);
   free(vsum);
-- 
2.43.0


From 0bdb0003de5467c583b06b6af6a21a1036c10b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 090/107] fix: NGA_Sprs_array_create_from_sparse transposed the
 dimensions of non-square matrices

---
 global/src/sparse.array.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 41e9349..d8601d6 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3422,7 +3422,7 @@ Integer pnga_sprs_array_create_from_sparse(Integer s_a,
   if (trans) {
     map[me+1] = SPA[handle].ilo+1;
   } else {
-    map[me+1] = SPA[handle].ilo+1;
+    map[me] = SPA[handle].ilo+1;
   }
   plus[0] = '+';
   plus[1] = '\0';
@@ -3437,8 +3437,13 @@ Integer pnga_sprs_array_create_from_sparse(Integer s_a,
     map[nprocs] = 1;
   }
   g_a = pnga_create_handle();
-  dims[0] = SPA[handle].idim;
-  dims[1] = SPA[handle].jdim;
+  if (trans) {
+    dims[0] = SPA[handle].jdim;
+    dims[1] = SPA[handle].idim;
+  } else {
+    dims[0] = SPA[handle].idim;
+    dims[1] = SPA[handle].jdim;
+  }
   pnga_set_data(g_a,two,dims,SPA[handle].type);
   if (trans) {
     nblock[0] = 1;
@@ -3447,6 +3452,7 @@ Integer pnga_sprs_array_create_from_sparse(Integer s_a,
     nblock[0] = nprocs;
     nblock[1] = 1;
   }
+  pnga_set_pgroup(g_a,SPA[handle].grp);
   pnga_set_irreg_distr(g_a, map, nblock);
   if (!pnga_allocate(g_a)) {
     pnga_error("(ga_sprs_array_create_from_sparse) failed to create"
@@ -3460,7 +3466,7 @@ Integer pnga_sprs_array_create_from_sparse(Integer s_a,
   ihi = SPA[handle].ihi;
   if (trans) {
     lo[0] = 1;
-    hi[0] = SPA[handle].idim;
+    hi[0] = SPA[handle].jdim;
     lo[1] = ilo+1;
     hi[1] = ihi+1;
   } else {
-- 
2.43.0


From 90f8e54e55ed4c6c6e1fc55e1a512e344fe1001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 091/107] fix: NGA_Sprs_array_sprsdns_multiply computed as many
 columns as the sparse matrix has

---
 global/src/sparse.array.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index d8601d6..e6ae4cd 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3726,9 +3726,10 @@ Integer pnga_sprs_array_sprsdns_multiply(Integer s_a, Integer g_b, Integer trans
     Integer tlo_c[2], thi_c[2];
     lo_c[0] = SPA[hdl_a].ilo+1;
     hi_c[0] = SPA[hdl_a].ihi+1;
-    pnga_sprs_array_column_distribution(s_a,l,&lo_c[1],&hi_c[1]);
-    lo_c[1]++;
-    hi_c[1]++;
+    /* the columns of C are those of B, not those of A */
+    lo_c[1] = (jdim*l)/nprocs+1;
+    hi_c[1] = (jdim*(l+1))/nprocs;
+    if (hi_c[1] < lo_c[1]) continue;
     /* loop over all sub-blocks in column and row block that contribute
      * to target block */
     if (trans) {
-- 
2.43.0


From 8abbb12c0fc100fa9a8ee1b541ffb1fe7c073ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 092/107] fix: NGA_Sprs_array_sprsdns_multiply leaked its
 distribution arrays

---
 global/src/sparse.array.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index e6ae4cd..ccc59f4 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3708,6 +3708,8 @@ Integer pnga_sprs_array_sprsdns_multiply(Integer s_a, Integer g_b, Integer trans
   }
   pnga_set_irreg_distr(g_c,map,blocks);
   pnga_set_pgroup(g_c,SPA[hdl_a].grp);
+  free(map);
+  free(size);
   pnga_mask_sync(local_sync_begin,local_sync_end);
   if (!pnga_allocate(g_c)) {
     pnga_error("(ga_sprs_array_sprsdns_multiply) could not allocate"
-- 
2.43.0


From c5384b13dbd99ae8953e82b7c4c958507a313c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 093/107] fix: NGA_Sprs_array_dnssprs_multiply compared the
 columns of the dense matrix with the columns of the sparse one

---
 global/src/sparse.array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index ccc59f4..7e92ce7 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -4003,8 +4003,8 @@ Integer pnga_sprs_array_dnssprs_multiply(Integer g_a, Integer s_b, Integer trans
     pnga_error("(ga_sprs_array_dnssprs_multiply) matrix A must be"
     " of dimension 2",GA[hdl_a].ndim);
   }
-  if ((trans && GA[hdl_a].dims[0] != SPA[hdl_b].jdim) ||
-      (!trans && GA[hdl_a].dims[1] != SPA[hdl_b].jdim)) {
+  if ((trans && GA[hdl_a].dims[0] != SPA[hdl_b].idim) ||
+      (!trans && GA[hdl_a].dims[1] != SPA[hdl_b].idim)) {
     pnga_error("(ga_sprs_array_dnssprs_multiply) column dimension of"
       " A must match row dimension of B",0);
   }
-- 
2.43.0


From b45c9509a73597a4c59e96908ea61213bfcc9c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 094/107] fix: NGA_Sprs_array_dnssprs_multiply placed the
 columns of the product by the row distribution

---
 global/src/sparse.array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 7e92ce7..667b491 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -4101,7 +4101,7 @@ Integer pnga_sprs_array_dnssprs_multiply(Integer g_a, Integer s_b, Integer trans
     Integer tlo_c[2], thi_c[2];
     lo_c[0] = ilo;
     hi_c[0] = ihi;
-    pnga_sprs_array_row_distribution(s_b,l,&lo_c[1],&hi_c[1]);
+    pnga_sprs_array_column_distribution(s_b,l,&lo_c[1],&hi_c[1]);
     lo_c[1]++;
     hi_c[1]++;
     if (trans) {
-- 
2.43.0


From 8211714d93b84db79b205f36483bc78bb254d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 095/107] fix: NGA_Sprs_array_dnssprs_multiply leaked the
 blocks it fetches and its distribution arrays

---
 global/src/sparse.array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 667b491..4f0a2dd 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -4085,6 +4085,8 @@ Integer pnga_sprs_array_dnssprs_multiply(Integer g_a, Integer s_b, Integer trans
   }
   pnga_set_irreg_distr(g_c,map,blocks);
   pnga_set_pgroup(g_c,SPA[hdl_b].grp);
+  free(map);
+  free(size);
   if (!pnga_allocate(g_c)) {
     pnga_error("(ga_sprs_array_sprsdns_multiply) could not allocate"
       " product array C",0);
@@ -4219,6 +4221,9 @@ Integer pnga_sprs_array_dnssprs_multiply(Integer g_a, Integer s_b, Integer trans
         }
       }
       free(buf_a);
+      free(iptr_b);
+      free(jptr_b);
+      free(val_b);
     }
   }
   if (local_sync_end) pnga_pgroup_sync(SPA[hdl_b].grp);
-- 
2.43.0


From 0901d843420cc600312c27de3ba9d21f9ff4bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 096/107] fix: complex ga_sprs_array_dnssprs_multiply read the
 imaginary part of another element

---
 global/src/sparse.array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 4f0a2dd..487ef60 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3933,7 +3933,7 @@ Integer pnga_sprs_array_sprsdns_multiply(Integer s_a, Integer g_b, Integer trans
           _type _ra, _ia, _rb, _ib, _rc, _ic;                        \
           _jj = _jptr_b[_iptr_b[_kk]+_j]-_jlo_b+1;                   \
           _ra = ((_type*)_ptr_a)[2*(_ii+_kk*_ld_a)];                 \
-          _ia = ((_type*)_ptr_a)[2*(_ii*_kk*_ld_a)+1];               \
+          _ia = ((_type*)_ptr_a)[2*(_ii+_kk*_ld_a)+1];               \
           _rb = ((_type*)_ptr_b)[2*(_iptr_b[_kk]+_j)];               \
           _ib = ((_type*)_ptr_b)[2*(_iptr_b[_kk]+_j)+1];             \
           ((_type*)_ptr_c)[2*(_jj*_ld_c + _ii)]                      \
-- 
2.43.0


From 48d984e7a04a4bf84594fc0922b78b4d21932cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 097/107] fix: NGA_Sprs_array_matmat_multiply leaked the blocks
 of A that meet an empty block of B

---
 global/src/sparse.array.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 487ef60..88980de 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -2627,7 +2627,12 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
       idx_a = (Integer*)iptr;
       jdx_a = (Integer*)jptr;
       if (!pnga_sprs_array_get_block(s_b, l, n, &iptr, &jptr,
-            &data_b, &ilo_b, &ihi_b, &jlo_b, &jhi_b)) continue;
+            &data_b, &ilo_b, &ihi_b, &jlo_b, &jhi_b)) {
+        free(idx_a);
+        free(jdx_a);
+        free(data_a);
+        continue;
+      }
       idx_b = (Integer*)iptr;
       jdx_b = (Integer*)jptr;
       if (type == C_INT) {
-- 
2.43.0


From 92cfd014b85d9209722ece5332b2e5f227d50ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:34 +0000
Subject: [PATCH 098/107] fix: NGA_Sprs_array_matmat_multiply read 32-bit
 indices as 64-bit ones

---
 global/src/sparse.array.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 88980de..9d16c9c 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -2517,6 +2517,22 @@ void update_map(Integer **top, Integer **list, Integer **idx, Integer **jdx,
 }
 #endif
 
+/**
+ * Convert n int indices to Integer in place. The buffers returned by
+ * pnga_sprs_array_get_block have room for this
+ */
+static void sai_widen_indices(void *buf, Integer n)
+{
+  Integer i;
+  for (i=n-1; i>=0; i--) {
+    int ival;
+    Integer lval;
+    memcpy(&ival,(char*)buf+i*sizeof(int),sizeof(int));
+    lval = (Integer)ival;
+    memcpy((char*)buf+i*sizeof(Integer),&lval,sizeof(Integer));
+  }
+}
+
 /**
  * Multiply sparse matrices A and B to get sparse matrix C
  * C = A.B
@@ -2626,6 +2642,10 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
             &data_a, &ilo_a, &ihi_a, &jlo_a, &jhi_a)) continue;
       idx_a = (Integer*)iptr;
       jdx_a = (Integer*)jptr;
+      if (!longidx) {
+        sai_widen_indices(iptr,ihi_a-ilo_a+2);
+        sai_widen_indices(jptr,idx_a[ihi_a-ilo_a+1]);
+      }
       if (!pnga_sprs_array_get_block(s_b, l, n, &iptr, &jptr,
             &data_b, &ilo_b, &ihi_b, &jlo_b, &jhi_b)) {
         free(idx_a);
@@ -2635,6 +2655,10 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
       }
       idx_b = (Integer*)iptr;
       jdx_b = (Integer*)jptr;
+      if (!longidx) {
+        sai_widen_indices(iptr,ihi_b-ilo_b+2);
+        sai_widen_indices(jptr,idx_b[ihi_b-ilo_b+1]);
+      }
       if (type == C_INT) {
         SPRS_REAL_MATMAT_MULTIPLY_M(int,idx_a,jdx_a,idx_b,jdx_b);
       } else if (type == C_LONG) {
-- 
2.43.0


From b0da647ca3011ba82fc738a1267aa2d94739a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:34 +0000
Subject: [PATCH 099/107] fix: NGA_Sprs_array_matmat_multiply aborted on a
 process whose rows of the product are empty

---
 global/src/sparse.array.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 9d16c9c..6ad215d 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -2734,7 +2734,7 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
       nblocks++;
     }
   }
-  SPA[hdl_c].offset[0] = 0;
+  if (nblocks > 0) SPA[hdl_c].offset[0] = 0;
   for (i=1; i<nblocks; i++) {
     SPA[hdl_c].offset[i] = SPA[hdl_c].offset[i-1]+SPA[hdl_c].blksize[i-1];
   }
@@ -2859,19 +2859,23 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
     char *cdata, *ctdata;
     /* Get pointers to global arrays */
     pnga_distribution(SPA[hdl_c].g_i,me,&tlo,&thi);
-    if (longidx) {
-      pnga_access_ptr(SPA[hdl_c].g_i,&tlo,&thi,&lti,&tld);
-    } else {
-      pnga_access_ptr(SPA[hdl_c].g_i,&tlo,&thi,&ti,&tld);
+    if (tlo <= thi) {
+      if (longidx) {
+        pnga_access_ptr(SPA[hdl_c].g_i,&tlo,&thi,&lti,&tld);
+      } else {
+        pnga_access_ptr(SPA[hdl_c].g_i,&tlo,&thi,&ti,&tld);
+      }
     }
     pnga_distribution(SPA[hdl_c].g_j,me,&tlo,&thi);
-    if (longidx) {
-      pnga_access_ptr(SPA[hdl_c].g_j,&tlo,&thi,&ltj,&tld);
-    } else {
-      pnga_access_ptr(SPA[hdl_c].g_j,&tlo,&thi,&tj,&tld);
+    if (tlo <= thi) {
+      if (longidx) {
+        pnga_access_ptr(SPA[hdl_c].g_j,&tlo,&thi,&ltj,&tld);
+      } else {
+        pnga_access_ptr(SPA[hdl_c].g_j,&tlo,&thi,&tj,&tld);
+      }
     }
     pnga_distribution(SPA[hdl_c].g_data,me,&tlo,&thi);
-    pnga_access_ptr(SPA[hdl_c].g_data,&tlo,&thi,&tdata,&tld);
+    if (tlo <= thi) pnga_access_ptr(SPA[hdl_c].g_data,&tlo,&thi,&tdata,&tld);
     idx = SPA[hdl_c].idx;
     jdx = SPA[hdl_c].jdx;
     cdata = (char*)SPA[hdl_c].val;
-- 
2.43.0


From 05bcb3d13b94c0add26a47b9f0443f61c054c86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:32 +0000
Subject: [PATCH 100/107] fix: NGA_Sprs_array_export leaked a list of block
 offsets

---
 global/src/sparse.array.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 6ad215d..bdc9464 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1583,6 +1583,7 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
   free(ihi);
   free(nblock);
   free(blkmap);
+  free(blkoffset);
   free(blksize);
   pnga_pgroup_sync(SPA[hdl].grp);
 }
-- 
2.43.0


From fc8c9370e52863b01be0708e33a063d042bb769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:32 +0000
Subject: [PATCH 101/107] fix: NGA_Sprs_array_export wrote wrong elements of
 complex matrices with more than one column block

---
 global/src/sparse.array.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index bdc9464..1097bfc 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1531,12 +1531,12 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
                 int64_t val = ((int64_t*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
               } else if (type == C_SCPL) {
-                float rval = ((float*)vptr)[2*k+loffset];
-                float ival = ((float*)vptr)[2*k+1+loffset];
+                float rval = ((float*)vptr)[2*(k+loffset)];
+                float ival = ((float*)vptr)[2*(k+loffset)+1];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,rval,ival);
               } else if (type == C_DCPL) {
-                double rval = ((double*)vptr)[2*k+loffset];
-                double ival = ((double*)vptr)[2*k+1+loffset];
+                double rval = ((double*)vptr)[2*(k+loffset)];
+                double ival = ((double*)vptr)[2*(k+loffset)+1];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,rval,ival);
               }
             }
@@ -1559,12 +1559,12 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
                 int64_t val = ((int64_t*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
               } else if (type == C_SCPL) {
-                float rval = ((float*)vptr)[2*k+loffset];
-                float ival = ((float*)vptr)[2*k+1+loffset];
+                float rval = ((float*)vptr)[2*(k+loffset)];
+                float ival = ((float*)vptr)[2*(k+loffset)+1];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,rval,ival);
               } else if (type == C_DCPL) {
-                double rval = ((double*)vptr)[2*k+loffset];
-                double ival = ((double*)vptr)[2*k+1+loffset];
+                double rval = ((double*)vptr)[2*(k+loffset)];
+                double ival = ((double*)vptr)[2*(k+loffset)+1];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,rval,ival);
               }
             }
-- 
2.43.0


From 131a7e04d01f6d67e05c56d5913158ece34e680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:32 +0000
Subject: [PATCH 102/107] fix: NGA_Sprs_array_export left out the elements of
 long long matrices

---
 global/src/sparse.array.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 1097bfc..a54cc17 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1459,7 +1459,7 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
   } else if (type == C_INT) {
     strncpy(cptr," \%d",3);
     offset = 3;
-  } else if (type == C_LONG) {
+  } else if (type == C_LONG || type == C_LONGLONG) {
     strncpy(cptr," \%ld",4);
     offset = 4;
   } else if (type == C_SCPL || type == C_DCPL) {
@@ -1527,7 +1527,7 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
               } else if (type == C_INT) {
                 int val = ((int*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
-              } else if (type == C_LONG) {
+              } else if (type == C_LONG || type == C_LONGLONG) {
                 int64_t val = ((int64_t*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
               } else if (type == C_SCPL) {
@@ -1555,7 +1555,7 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
               } else if (type == C_INT) {
                 int val = ((int*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
-              } else if (type == C_LONG) {
+              } else if (type == C_LONG || type == C_LONGLONG) {
                 int64_t val = ((int64_t*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
               } else if (type == C_SCPL) {
-- 
2.43.0


From a0f6f04cc6091ae82cf3680b2289a0b4505f6123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:44 +0000
Subject: [PATCH 103/107] fix: NGA_Sprs_array_export aborted if a process holds
 no elements

---
 global/src/sparse.array.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index a54cc17..59312a3 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1486,6 +1486,7 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
       ld = 1;
       pnga_distribution(SPA[hdl].g_data, iproc, &lo, &hi);
       nlen_data = hi-lo+1;
+      if (nlen_data <= 0) continue;
       vptr = malloc(nlen_data*size);
       pnga_get(SPA[hdl].g_data,&lo,&hi,vptr,&ld);
 
-- 
2.43.0


From cf7a2e905be0b3ec7657a1378962e08c94664903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:44 +0000
Subject: [PATCH 104/107] fix: sparse arrays with fewer rows or columns than
 processes lost the last row or column of a process

---
 global/src/sparse.array.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 59312a3..ad43323 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -631,6 +631,9 @@ logical pnga_sprs_array_assemble(Integer s_a)
     while ((SPA[hdl].ihi*nproc)/idim > me+1) {
       SPA[hdl].ihi--;
     }
+    if ((SPA[hdl].ihi*nproc)/idim != me+1) {
+      SPA[hdl].ihi++;
+    }
     SPA[hdl].ihi--;
   } else {
     SPA[hdl].ihi = SPA[hdl].idim-1;
@@ -804,6 +807,9 @@ logical pnga_sprs_array_assemble(Integer s_a)
       while ((jhi*nproc)/jdim > i+1) {
         jhi--;
       }
+      if ((jhi*nproc)/jdim != i+1) {
+        jhi++;
+      }
       jhi--;
     } else {
       jhi = SPA[hdl].jdim-1;
@@ -912,6 +918,9 @@ void pnga_sprs_array_row_distribution(Integer s_a, Integer iproc, Integer *lo,
       while (((*hi)*nproc)/idim > iproc+1) {
         (*hi)--;
       }
+      if (((*hi)*nproc)/idim != iproc+1) {
+        (*hi)++;
+      }
       (*hi)--;
     } else {
       *hi = idim-1;
@@ -950,6 +959,9 @@ void pnga_sprs_array_column_distribution(Integer s_a, Integer iproc, Integer *lo
     while (((*hi)*nproc)/jdim > iproc+1) {
       (*hi)--;
     }
+    if (((*hi)*nproc)/jdim != iproc+1) {
+      (*hi)++;
+    }
     (*hi)--;
   } else {
     *hi = jdim-1;
@@ -3086,6 +3098,9 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
         while ((jhi*nprocs)/jdim > i+1) {
           jhi--;
         }
+        if ((jhi*nprocs)/jdim != i+1) {
+          jhi++;
+        }
         jhi--;
       } else {
         jhi = SPA[hdl_c].jdim-1;
@@ -4088,6 +4103,9 @@ Integer pnga_sprs_array_dnssprs_multiply(Integer g_a, Integer s_b, Integer trans
     while ((ihi*nprocs)/idim > me+1) {
       ihi--;
     }
+    if ((ihi*nprocs)/idim != me+1) {
+      ihi++;
+    }
     ihi--;
   } else {
     ihi = idim-1;
-- 
2.43.0


From 3a6166bc2f3136ababf54dc04960379b4a68bc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:15 +0000
Subject: [PATCH 105/107] fix: NGA_Sprs_array_diag_left/right_multiply aborted
 if the matrix has fewer rows or columns than processes

---
 global/src/sparse.array.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index ad43323..63a8892 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1794,7 +1794,7 @@ void pnga_sprs_array_diag_left_multiply(Integer s_a, Integer g_d)
   vbuf = malloc((ihi-ilo+1)*SPA[hdl].size);
   klo = ilo+1;
   khi = ihi+1;
-  pnga_get(g_d,&klo,&khi,vbuf,&one);
+  if (klo <= khi) pnga_get(g_d,&klo,&khi,vbuf,&one);
   /* loop over blocks in sparse array */
   for (iproc=0; iproc<nproc; iproc++) {
     pnga_sprs_array_column_distribution(s_a,iproc,&jlo,&jhi);
@@ -1928,7 +1928,7 @@ void pnga_sprs_array_diag_right_multiply(Integer s_a, Integer g_d)
       vbuf = malloc((jhi-jlo+1)*SPA[hdl].size);
       klo = jlo+1;
       khi = jhi+1;
-      pnga_get(g_d,&klo,&khi,vbuf,&one);
+      if (klo <= khi) pnga_get(g_d,&klo,&khi,vbuf,&one);
       if (vptr != NULL) {
         if (type == C_INT) {
           SPRS_REAL_RIGHT_MULTIPLY_M(int,iptr,jptr);
@@ -1951,7 +1951,7 @@ void pnga_sprs_array_diag_right_multiply(Integer s_a, Integer g_d)
       vbuf = malloc((jhi-jlo+1)*SPA[hdl].size);
       klo = jlo+1;
       khi = jhi+1;
-      pnga_get(g_d,&klo,&khi,vbuf,&one);
+      if (klo <= khi) pnga_get(g_d,&klo,&khi,vbuf,&one);
       if (vptr != NULL) {
         if (type == C_INT) {
           SPRS_REAL_RIGHT_MULTIPLY_M(int,ilptr,jlptr);
-- 
2.43.0


From 0aca97cb178f2ab6c8a478a07ec022907ab9343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:15 +0000
Subject: [PATCH 106/107] fix: NGA_Sprs_array_create_from_dense aborted on a
 process without elements of the dense array

---
 global/src/sparse.array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 63a8892..4cf1adc 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3379,7 +3379,7 @@ Integer pnga_sprs_array_create_from_dense(Integer g_a, Integer idx_size,
   /* find bounding indices of locally owned block from global array */
   pnga_distribution(g_a,me,lo,hi);
   /* get pointer to locally owned block */
-  pnga_access_ptr(g_a, lo, hi, &vptr, &ld);
+  if (lo[0] <= hi[0] && lo[1] <= hi[1]) pnga_access_ptr(g_a, lo, hi, &vptr, &ld);
   /* add all non-zero entries from g_a to s_a. Add diagonal elements
    * to s_a even if they are zero */
   if (idx_size == 4) {
-- 
2.43.0


From da8d00fa78cd8d5b2119f4a7cbf895bc4cb6d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:52 +0000
Subject: [PATCH 107/107] fix: sparse arrays with fewer rows or columns than
 processes gave a row or column to two processes

---
 global/src/sparse.array.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 4cf1adc..f19dfae 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -799,6 +799,9 @@ logical pnga_sprs_array_assemble(Integer s_a)
     while ((jlo*nproc)/jdim > i) {
       jlo--;
     }
+    if ((jlo*nproc)/jdim != i) {
+      jlo++;
+    }
     if (i < nproc-1) {
       jhi = (SPA[hdl].jdim*(i+1))/nproc;
       while ((jhi*nproc)/jdim < i+1) {
@@ -910,6 +913,9 @@ void pnga_sprs_array_row_distribution(Integer s_a, Integer iproc, Integer *lo,
     while (((*lo)*nproc)/idim > iproc) {
       (*lo)--;
     }
+    if (((*lo)*nproc)/idim != iproc) {
+      (*lo)++;
+    }
     if (iproc < nproc-1) {
       (*hi) = (idim*(iproc+1))/nproc;
       while (((*hi)*nproc)/idim < iproc+1) {
@@ -951,6 +957,9 @@ void pnga_sprs_array_column_distribution(Integer s_a, Integer iproc, Integer *lo
   while (((*lo)*nproc)/jdim > iproc) {
     (*lo)--;
   }
+  if (((*lo)*nproc)/jdim != iproc) {
+    (*lo)++;
+  }
   if (iproc < nproc-1) {
     (*hi) = (jdim*(iproc+1))/nproc;
     while (((*hi)*nproc)/jdim < iproc+1) {
@@ -3090,6 +3099,9 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
       while ((jlo*nprocs)/jdim > i) {
         jlo--;
       }
+      if ((jlo*nprocs)/jdim != i) {
+        jlo++;
+      }
       if (i < nprocs-1) {
         jhi = (SPA[hdl_c].jdim*(i+1))/nprocs;
         while ((jhi*nprocs)/jdim < i+1) {
-- 
2.43.0

