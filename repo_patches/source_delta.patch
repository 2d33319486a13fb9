From 2ed3fb3bf6dd8918a662390b3edfcc4352947389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:15 +0000
Subject: [PATCH 01/23] fix: dct1 Mx must not alter its input vector

x[0]*sqrt(2)/sqrt(2) is not x[0] in floating point, so Mx changed x[0] in
the last place. Save and restore it, as Ax and AtAx already do.
---
 src/dct1.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dct1.c b/src/dct1.c
index 8eec972..5a51113 100644
--- a/src/dct1.c
+++ b/src/dct1.c
@@ -179,15 +179,17 @@ static void Identity(double* x, double* z) { cblas_dcopy(dct_m, x, 1, z, 1); }
 static void dct_Mx(double* x, double* y) {
   // double *x_ = __builtin_assume_aligned(x, DALIGN);
 
+  // Leave the input vector unchanged.
+  double x0_tmp = x[0];
   x[0] = x[0] * sqrt(2.0); // proper scaling
 
   fftw_execute_r2r(dct_plan_EMx, x, y);
+  x[0] = x0_tmp; // undo scaling
+
   // normalize
   for (int i = 0; i < dct_m; i++) {
     y[i] = y[i] * dct_root_1_by_2N;
   }
-
-  x[0] = x[0] / sqrt(2.0); // undo scaling
 }
 
 static void dct_Mty(double* y, double* x) {
-- 
2.43.0


From 9b1d1bcbbc65ccd12588a50e53fdd8da10949c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:41 +0000
Subject: [PATCH 02/23] fix: provide AtAx in the dctTV operator set

l1c_setup_dctTV_transforms left ax_funs->AtAx unset, so a caller that
applies it (e.g., l1c_l1qc_newton) jumped through an indeterminate pointer.
---
 src/dct_tv_transforms.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/dct_tv_transforms.c b/src/dct_tv_transforms.c
index 0c79086..148fc59 100644
--- a/src/dct_tv_transforms.c
+++ b/src/dct_tv_transforms.c
@@ -18,6 +18,8 @@ static void Rx(double* x, double* y);
 static void Rty(double* y, double* x);
 static void Av(double* v, double* y);
 static void Aty(double* y, double* v);
+static void AtAv(double* v, double* z);
+static void RtRx(double* x, double* z);
 static void Identity(double* x, double* z);
 
 /* Local variables */
@@ -148,6 +150,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
   if (bp_mode == synthesis) {
     ax_funs->Ax = Av;
     ax_funs->Aty = Aty;
+    ax_funs->AtAx = AtAv;
     ax_funs->Mx = Wv;
     ax_funs->Mty = Wtx;
     ax_funs->Wz = Identity;
@@ -157,6 +160,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
     ax_funs->Mty = Identity;
     ax_funs->Ax = Rx;
     ax_funs->Aty = Rty;
+    ax_funs->AtAx = RtRx;
     ax_funs->Wz = Wv;
     ax_funs->Wtx = Wtx;
   }
@@ -238,6 +242,18 @@ static void Aty(double* y, double* v) {
   Wtx(u, v);
 }
 
+/* z = A^T * A * v, for synthesis. Since n <= m, z can hold the intermediate A*v.*/
+static void AtAv(double* v, double* z) {
+  Av(v, z);
+  Aty(z, z);
+}
+
+/* z = A^T * A * x, for analysis, where A=R. */
+static void RtRx(double* x, double* z) {
+  Rx(x, u);
+  Rty(u, z);
+}
+
 static int check_pix_idx(l1c_int n, l1c_int* pix_idx, l1c_int max_idx) {
   l1c_int idx = 0;
   for (int i = 0; i < n; i++) {
-- 
2.43.0


From 37550470a350c6b3c01402e022c538787fa04640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:02 +0000
Subject: [PATCH 03/23] fix: validate the dctTV arguments before touching the
 live operator set

A rejected l1c_setup_dctTV_transforms call overwrote the dimensions and
weights of a set which is still in use, whose operators then read and wrote
out of bounds.
---
 src/dct_tv_transforms.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/dct_tv_transforms.c b/src/dct_tv_transforms.c
index 148fc59..6606922 100644
--- a/src/dct_tv_transforms.c
+++ b/src/dct_tv_transforms.c
@@ -71,16 +71,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
                                BpMode bp_mode,
                                l1c_int* pix_idx,
                                l1c_AxFuns* ax_funs) {
-  jobs = 0;
   int status = L1C_SUCCESS;
-  _mrow = mrow;
-  _mcol = mcol;
-  _m = mrow * mcol;
-  _p = _m;
-  _alp_v = alp_v;
-  _alp_h = alp_h;
-  _inc_TVV = 0;
-  _inc_TVH = 0;
 
   if (n <= 0 || mrow <= 0 || mcol <= 0 || alp_v < 0 || alp_h < 0) {
     return L1C_INVALID_ARGUMENT;
@@ -94,6 +85,16 @@ int l1c_setup_dctTV_transforms(l1c_int n,
     return L1C_INVALID_ARGUMENT;
   }
 
+  jobs = 0;
+  _mrow = mrow;
+  _mcol = mcol;
+  _m = mrow * mcol;
+  _p = _m;
+  _alp_v = alp_v;
+  _alp_h = alp_h;
+  _inc_TVV = 0;
+  _inc_TVH = 0;
+
   /* For a matrix A=[M1; M2], ||A|| = ||A^TA||^1/2 = ||M_1^TM_1  +  M_2^TM_2||^1/2
     Thus,
     ||A|| <= \sqrt{ ||M_1||^2 + ||M_2||^2 }
-- 
2.43.0


From a98d392290ce7ca4919b5d5178c9026e678ecc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:50 +0000
Subject: [PATCH 04/23] fix: nesta leaks its workspace when setup fails, and
 ignores a failed fifo malloc

Release the problem struct on the error return of l1c_nesta_setup, and
report L1C_OUT_OF_MEMORY when the fifo cannot be allocated instead of
writing through NULL.
---
 src/nesta.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/nesta.c b/src/nesta.c
index d3c52d2..d199591 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -43,11 +43,7 @@
    fvals initialized to zero.
  */
 struct l1c_fmean_fifo _l1c_new_fmean_fifo(void) {
-  double* fvals = malloc(sizeof(double) * L1C_NESTA_NMEAN);
-
-  for (int i = 0; i < L1C_NESTA_NMEAN; i++) {
-    fvals[i] = 0.0;
-  }
+  double* fvals = calloc(L1C_NESTA_NMEAN, sizeof(double));
 
   struct l1c_fmean_fifo fifo = {.f_vals = fvals, .n_total = 0, .next = fvals};
   return fifo;
@@ -385,10 +381,15 @@ int l1c_nesta(l1c_int m,
   /* Initialize*/
   status += l1c_nesta_setup(NP, &beta_mu, &beta_tol, b, ax_funs, &opts);
   if (status) {
+    l1c_free_nesta_problem(NP);
     return status;
   }
 
   struct l1c_fmean_fifo fbar_fifo = _l1c_new_fmean_fifo();
+  if (!fbar_fifo.f_vals) {
+    l1c_free_nesta_problem(NP);
+    return L1C_OUT_OF_MEMORY;
+  }
 
   cblas_dcopy(NP->m, NP->xo, 1, NP->xk, 1);
 
-- 
2.43.0


From 681223e8c5e10118d08979eb3bad75814e512fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:51 +0000
Subject: [PATCH 05/23] fix: nesta returns NaN when all measurements are zero

mu0 is derived from A'b and the continuation divides by it.
---
 src/nesta.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index d199591..4cc1154 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -298,7 +298,8 @@ int l1c_nesta_setup(l1c_NestaProb* NP,
 
   NP->ax_funs.Wtx(NP->xo, Wtx_ref);
   l1c_abs_vec(NP->m, Wtx_ref, Wtx_ref);
-  double mu0 = 0.9 * l1c_max_vec(NP->p, Wtx_ref);
+  /* Never start below mu_final. In particular, mu0 must not be zero when b = 0.*/
+  double mu0 = max(0.9 * l1c_max_vec(NP->p, Wtx_ref), mu_final);
 
   /** @todo tol=0.1 is a hueristic. What happens if user specifies tol > 0.1 ?
    */
-- 
2.43.0


From 008bde961f13b24ff72e56bdfdc2252ba0fa30d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:32 +0000
Subject: [PATCH 06/23] fix: preconditioned CG measures the start point's
 residual in the wrong norm

The initial best residual was sqrt(r'z/b'b) while every iterate is judged by
sqrt(r'r/b'b), so iterates better than the start were discarded (or worse ones
kept) depending on the scale of the preconditioner, and cgres was wrong.
---
 src/cgsolve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cgsolve.c b/src/cgsolve.c
index 926ed5f..838dcac 100644
--- a/src/cgsolve.c
+++ b/src/cgsolve.c
@@ -262,7 +262,8 @@ int l1c_cgsolve_diag_precond(
   delta = cblas_ddot(N, r, 1, z, 1); /*delta = r'*z                  */
 
   nrm_b_sqrd = cblas_ddot(N, b, 1, b, 1); /*nrm_b_sqrd = b'*b                */
-  best_rel_res = sqrt(delta / nrm_b_sqrd);
+  nrm_r_sqrd = cblas_ddot(N, r, 1, r, 1); /*nrm_r_sqrd = r'*r                */
+  best_rel_res = sqrt(nrm_r_sqrd / nrm_b_sqrd);
 
   for (iter = 1; iter <= cg_params.max_iter; iter++) {
 
-- 
2.43.0


From 1e01ee5981cfbabf8d547741560f198db043b1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:22 +0000
Subject: [PATCH 07/23] fix: failed dct setup destroys stale plans twice (dct1)
 or leaks (dct2)

---
 src/dct1.c | 3 +++
 src/dct2.c | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dct1.c b/src/dct1.c
index 5a51113..62cf69a 100644
--- a/src/dct1.c
+++ b/src/dct1.c
@@ -94,6 +94,9 @@ static double dct_root_1_by_2N;
 int l1c_dct1_setup(l1c_int n, l1c_int m, l1c_int* pix_mask_idx, l1c_AxFuns* ax_funs) {
 
   int status = 0;
+  // Forget the plans of an earlier instance, so the fail path cannot destroy them again.
+  dct_plan_MtEty = NULL;
+  dct_plan_EMx = NULL;
 #if defined(HAVE_FFTW3_THREADS)
   fftw_init_threads();
   // int n_proc = omp_get_num_procs();
diff --git a/src/dct2.c b/src/dct2.c
index dbfb817..61b612b 100644
--- a/src/dct2.c
+++ b/src/dct2.c
@@ -117,6 +117,9 @@ static double dct2_root_1_by_4NM;
 int l1c_dct2_setup(
     l1c_int n, l1c_int mrow, l1c_int mcol, l1c_int* pix_mask_idx, l1c_AxFuns* ax_funs) {
   int status = 0;
+  // Forget the plans of an earlier instance, so the fail path cannot destroy them again.
+  dct2_plan_MtEty = NULL;
+  dct2_plan_EMx = NULL;
 #if defined(HAVE_FFTW3_THREADS)
   fftw_init_threads();
   // int n_proc = omp_get_num_procs();
@@ -188,7 +191,7 @@ int l1c_dct2_setup(
   return status;
 
 fail:
-
+  dct2_destroy();
   return status;
 }
 
-- 
2.43.0


From b677cc54e754df6932932b5d4ac9aeac4a2b5ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:35 +0000
Subject: [PATCH 08/23] fix: l1qc_newton frees uninitialised pointers when its
 first allocation fails

---
 src/l1qc_newton.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/l1qc_newton.c b/src/l1qc_newton.c
index 7805c44..5d094d5 100644
--- a/src/l1qc_newton.c
+++ b/src/l1qc_newton.c
@@ -456,7 +456,7 @@ l1c_LBResult l1c_l1qc_newton(l1c_int m,
 
   double lambda2 = 0.0, g_dot_dxu = 0.0;
   double l1_prev = 0, l1 = 0, rate = 0;
-  l1c_l1qcProb l1qc_prob;
+  l1c_l1qcProb l1qc_prob = {0};
 
   double* u = l1c_calloc_double(m);
 
-- 
2.43.0


From de67d239364c06698f325b12722e274595c2b209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:56 +0000
Subject: [PATCH 09/23] fix: extract_json_int_array dereferences NULL when out
 of memory

---
 src/json_utils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/json_utils.c b/src/json_utils.c
index a8b4aea..151aafd 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -159,6 +159,12 @@ int extract_json_int_array(cJSON* data_json, char* name, l1c_int** x, l1c_int* N
   *N = cJSON_GetArraySize(x_json);
   *x = calloc(*N, sizeof(l1c_int));
 
+  if (!*x) {
+    status = 1;
+    fprintf(stderr, "error allocating memory\n");
+    goto end;
+  }
+
   int k = 0;
   cJSON* xk_json;
   cJSON_ArrayForEach(xk_json, x_json) {
-- 
2.43.0


From a75499236684f5efa6311a2fb017e5beb99d2876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:56 +0000
Subject: [PATCH 10/23] fix: load_file_as_text leaks its buffer when the read
 fails

---
 src/json_utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json_utils.c b/src/json_utils.c
index 151aafd..59f9fe9 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -45,6 +45,8 @@ int load_file_as_text(char* fname, char** file_data) {
   if (nmemb == num_read) {
     return 0;
   } else {
+    free(*file_data);
+    *file_data = NULL;
     return 1;
   }
 }
-- 
2.43.0


From 6737972d0533b89bac776c7f4ddd4280efef2224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:08 +0000
Subject: [PATCH 11/23] fix: load_file_to_json reports success for a file that
 does not parse

---
 src/json_utils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/json_utils.c b/src/json_utils.c
index 59f9fe9..8c1ea99 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -59,16 +59,16 @@ int load_file_to_json(char* fname, cJSON** data_json) {
 
   *data_json = cJSON_Parse(file_data);
 
-  free(file_data);
-
-  if (data_json == NULL) {
+  if (*data_json == NULL) {
     const char* error_ptr = cJSON_GetErrorPtr();
     if (error_ptr != NULL) {
       fprintf(stderr, "Error before: %s\n", error_ptr);
-      return 1;
     }
+    free(file_data);
+    return 1;
   }
 
+  free(file_data);
   return 0;
 }
 
-- 
2.43.0


From 5a46d67e4fc5325b9a60dcd25b226b4c32263d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:04 +0000
Subject: [PATCH 12/23] fix: load_file_as_text corrupts the heap when given a
 directory

---
 src/json_utils.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/json_utils.c b/src/json_utils.c
index 8c1ea99..b3f0306 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -2,6 +2,7 @@
 
 #include <cjson/cJSON.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -19,7 +20,7 @@ void print_vec(l1c_int N, double* x, char* name) {
 }
 
 int load_file_as_text(char* fname, char** file_data) {
-  int file_len;
+  long file_len;
   FILE* file_ptr;
 
   file_ptr = fopen(fname, "r"); /* Open in TEXT mode */
@@ -30,6 +31,11 @@ int load_file_as_text(char* fname, char** file_data) {
   }
 
   file_len = get_file_length(file_ptr);
+  if (file_len < 0 || file_len == LONG_MAX) { /* Not a regular file, e.g., a directory */
+    fprintf(stderr, "Error: cannot determine the size of %s\n", fname);
+    fclose(file_ptr);
+    return 1;
+  }
   *file_data = calloc(file_len + 1, sizeof(char));
 
   if (*file_data == NULL) {
-- 
2.43.0


From f0b6e08255e8c03eebc451d44c28145f05277a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:16 +0000
Subject: [PATCH 13/23] fix: nesta prints a debug message to stdout on every
 call

---
 src/nesta.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index 4cc1154..fe61060 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -368,7 +368,6 @@ int l1c_nesta(l1c_int m,
   if (n != ax_funs.n || m != ax_funs.m) {
     return L1C_INVALID_ARGUMENT;
   }
-  printf(" ALL OK!\n");
   double alpha_k = 0, tau_k = 0;
   double fbar = 0, rel_delta_fmu;
   double beta_mu, beta_tol;
-- 
2.43.0


From d3666fc8eed8dcc65410eac944f211c38a538326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:29 +0000
Subject: [PATCH 14/23] fix: l1qc_dct reports through the replaceable print
 function

---
 src/l1qc_dct.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/l1qc_dct.c b/src/l1qc_dct.c
index 1185e1e..dcda0c8 100644
--- a/src/l1qc_dct.c
+++ b/src/l1qc_dct.c
@@ -7,6 +7,7 @@
 
 #include "cblas.h"
 #include "l1c.h"
+#include "l1c_logging.h"
 #include "l1c_math.h"
 #include "l1qc_newton.h"
 
@@ -80,10 +81,10 @@ int l1qc_dct(int mrow,
 
     double time_total = l1c_get_time_diff(tv_start, tv_end);
 
-    printf("total c time: %f\n", time_total);
-    printf("total-newton-iter: %d\n", lb_res->total_newton_iter);
-    printf("total-cg-iter: %d\n", lb_res->total_cg_iter);
-    printf("time per cg iter: %g\n", time_total / (double)lb_res->total_cg_iter);
+    l1c_printf("total c time: %f\n", time_total);
+    l1c_printf("total-newton-iter: %d\n", lb_res->total_newton_iter);
+    l1c_printf("total-cg-iter: %d\n", lb_res->total_cg_iter);
+    l1c_printf("time per cg iter: %g\n", time_total / (double)lb_res->total_cg_iter);
   }
 
 exit:
-- 
2.43.0


From d7556ebe3de2c038338d855ea15ec1417303f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:52 +0000
Subject: [PATCH 15/23] fix: python functions leak every array they return

Py_BuildValue's O takes a new reference, and the one we own was never
given up, so no result was ever freed.
---
 interfaces/python/l1cPy.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index efef406..b70982c 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -231,7 +231,8 @@ static PyObject* _l1qc_dct(PyObject* self, PyObject* args, PyObject* kw) {
   Py_DECREF(pix_idx_npA);
   l1c_free_double(x_ours);
 
-  return Py_BuildValue("OO", x_out_npA, lb_res_obj);
+  /* N: the tuple takes over our references. */
+  return Py_BuildValue("NN", x_out_npA, lb_res_obj);
 
   /* If we failed, clean up more things */
 fail2:
@@ -319,7 +320,7 @@ static PyObject* _breg_anistropic_TV(PyObject* self, PyObject* args, PyObject* k
   l1c_free_double(f_ours);
   l1c_free_double(uk);
 
-  return Py_BuildValue("O", uk_out_npA);
+  return uk_out_npA;
 
   /* If we failed, clean up more things. Note the fall through. */
 fail2:
@@ -460,7 +461,8 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   l1c_free_double(b_ours);
   l1c_free_double(x_ours);
 
-  return Py_BuildValue("Oi", x_out_npA, status);
+  /* N: the tuple takes over our reference. */
+  return Py_BuildValue("Ni", x_out_npA, status);
 
   /* If we failed, clean up more things */
 fail:
-- 
2.43.0


From 045b913a5972c0f43a927b40ba8489d7ff5f6945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:52 +0000
Subject: [PATCH 16/23] fix: python nesta_dctTV never destroys its transforms

Every call leaked the FFTW plans and work arrays of the DCT set.
---
 interfaces/python/l1cPy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index b70982c..8cfcabb 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -448,6 +448,8 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
 
   status = l1c_nesta(mtot, x_ours, n, b_ours, ax_funs, opts);
 
+  ax_funs.destroy();
+
   /* Build the output tuple */
   npy_intp dims[] = {mrow, mcol};
 
-- 
2.43.0


From 85954ea677d3278c7e28f3e4141ee22f7df3eb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:52 +0000
Subject: [PATCH 17/23] fix: python breg_anistropic_TV leaks when one of two
 allocations fails

---
 interfaces/python/l1cPy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index 8cfcabb..b6bf672 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -299,7 +299,7 @@ static PyObject* _breg_anistropic_TV(PyObject* self, PyObject* args, PyObject* k
   uk = l1c_malloc_double(n * m);
   if (!f_ours || !uk || !f) {
     PyErr_SetString(PyExc_MemoryError, "Failed to allocation memory");
-    goto fail1;
+    goto fail2;
   }
 
   cblas_dcopy(n * m, f, 1, f_ours, 1);
-- 
2.43.0


From 9517250610c191b5a5a0c9d2f307b509a0b52d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:38 +0000
Subject: [PATCH 18/23] fix: python nesta_dctTV returns DCT coefficients in
 synthesis mode

The caller gets an mrow by mcol image in analysis mode; in synthesis mode it
got the coefficients laid out as one. Apply Mx, as the mex interface does.
---
 interfaces/python/l1cPy.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index b6bf672..da8c30f 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -334,7 +334,7 @@ fail1:
 
 static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   (void)self;
-  double *x_ours = NULL, *b = NULL, *b_ours = NULL;
+  double *x_ours = NULL, *b = NULL, *b_ours = NULL, *z_ours = NULL;
 
   PyObject *b_obj = NULL, *pix_idx_obj = NULL, *x_out_npA = NULL;
 
@@ -433,7 +433,8 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   /* Allocate memory for M*xk=f */
   x_ours = l1c_calloc_double(mtot);
   b_ours = l1c_malloc_double(n);
-  if (!x_ours || !b_ours) {
+  z_ours = l1c_calloc_double(mtot);
+  if (!x_ours || !b_ours || !z_ours) {
     PyErr_SetString(PyExc_MemoryError, "Failed to allocation memory");
     goto fail;
   }
@@ -448,12 +449,15 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
 
   status = l1c_nesta(mtot, x_ours, n, b_ours, ax_funs, opts);
 
+  if (status == L1C_SUCCESS)
+    ax_funs.Mx(x_ours, z_ours); // A straight copy in analysis mode
+
   ax_funs.destroy();
 
   /* Build the output tuple */
   npy_intp dims[] = {mrow, mcol};
 
-  x_out_npA = PyArray_SimpleDoubleCopy(2, dims, x_ours);
+  x_out_npA = PyArray_SimpleDoubleCopy(2, dims, z_ours);
   if (!x_out_npA)
     goto fail;
 
@@ -462,6 +466,7 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   Py_DECREF(pix_idx_npA);
   l1c_free_double(b_ours);
   l1c_free_double(x_ours);
+  l1c_free_double(z_ours);
 
   /* N: the tuple takes over our reference. */
   return Py_BuildValue("Ni", x_out_npA, status);
@@ -470,6 +475,7 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
 fail:
   l1c_free_double(x_ours);
   l1c_free_double(b_ours);
+  l1c_free_double(z_ours);
   Py_XDECREF(b_npA);
   Py_XDECREF(pix_idx_npA);
 
-- 
2.43.0


From e76cb133128ac9aa85b3a04cca59f1a1fd1a0514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:05 +0000
Subject: [PATCH 19/23] fix: mex breg_anistropic_TV garbles images that are not
 square

The matrix is column-major; it was handed on as if row-major, and returned
with its dimensions exchanged.
---
 interfaces/mex/breg_anistropic_TV_mex.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interfaces/mex/breg_anistropic_TV_mex.c b/interfaces/mex/breg_anistropic_TV_mex.c
index c26803b..716686f 100644
--- a/interfaces/mex/breg_anistropic_TV_mex.c
+++ b/interfaces/mex/breg_anistropic_TV_mex.c
@@ -63,13 +63,14 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
     goto exit;
   }
   cblas_dcopy(N * M, f, 1, f_ours, 1);
-  int stat = l1c_breg_anistropic_TV(N, M, uk, f_ours, mu, tol, max_iter, max_jac_iter);
+  /* A column-major N by M matrix is a row-major M by N one.*/
+  int stat = l1c_breg_anistropic_TV(M, N, uk, f_ours, mu, tol, max_iter, max_jac_iter);
   if (stat) {
     plhs[0] = NULL;
     goto exit;
   }
   /* Prepare output data. */
-  plhs[0] = mxCreateDoubleMatrix((mwSize)M, (mwSize)N, mxREAL);
+  plhs[0] = mxCreateDoubleMatrix((mwSize)N, (mwSize)M, mxREAL);
 
   f_out = mxGetPr(plhs[0]);
 
-- 
2.43.0


From ca27e92ba68d269d1a805ec7aa99e41db598259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:05 +0000
Subject: [PATCH 20/23] fix: mex l1qc_dct ignores the dct_mode option of
 l1qc_dct_opts

---
 interfaces/mex/l1qc_dct_mex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/mex/l1qc_dct_mex.c b/interfaces/mex/l1qc_dct_mex.c
index 42b6f8e..8726a58 100644
--- a/interfaces/mex/l1qc_dct_mex.c
+++ b/interfaces/mex/l1qc_dct_mex.c
@@ -92,6 +92,8 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
       (int)_mex_get_double_from_struct_or_fail(prhs, 4, "newton_max_iter");
   l1qc_opts.cg_maxiter = (int)_mex_get_double_from_struct_or_fail(prhs, 4, "cgmaxiter");
   l1qc_opts.lbiter = (int)_mex_get_double_from_struct_or_fail(prhs, 4, "lbiter");
+  l1qc_opts.dct_mode =
+      (DctMode)_mex_get_double_from_struct_or_fail(prhs, 4, "dct_mode");
 
   if (l1qc_opts.verbose > 0) {
     l1c_printf("Input Parameters\n---------------\n");
-- 
2.43.0


From 39d3df14c2a637c74abdf85aec9b807caee42d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:30 +0000
Subject: [PATCH 21/23] fix: mex functions leak or crash when an allocation
 fails

---
 interfaces/mex/breg_anistropic_TV_mex.c | 9 +++++++--
 interfaces/mex/nesta_dctTV_mex.c        | 7 ++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/interfaces/mex/breg_anistropic_TV_mex.c b/interfaces/mex/breg_anistropic_TV_mex.c
index 716686f..c672668 100644
--- a/interfaces/mex/breg_anistropic_TV_mex.c
+++ b/interfaces/mex/breg_anistropic_TV_mex.c
@@ -32,6 +32,7 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
 
   double tol = 0, mu = 0;
   l1c_int i = 0, N = 0, M = 0;
+  int stat = 0;
   /*--- Defaults --- */
   int max_iter = 1000, max_jac_iter = 1;
 
@@ -59,12 +60,12 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   f_ours = l1c_malloc_double(N * M);
   uk = l1c_malloc_double(N * M);
   if (!f_ours || !uk) {
-    mexErrMsgIdAndTxt("l1c:l1qc_dct:outofmemory", "Error Allocating memory.");
+    stat = L1C_OUT_OF_MEMORY;
     goto exit;
   }
   cblas_dcopy(N * M, f, 1, f_ours, 1);
   /* A column-major N by M matrix is a row-major M by N one.*/
-  int stat = l1c_breg_anistropic_TV(M, N, uk, f_ours, mu, tol, max_iter, max_jac_iter);
+  stat = l1c_breg_anistropic_TV(M, N, uk, f_ours, mu, tol, max_iter, max_jac_iter);
   if (stat) {
     plhs[0] = NULL;
     goto exit;
@@ -82,4 +83,8 @@ exit:
   l1c_free_double(f_ours);
   l1c_free_double(uk);
 
+  if (stat) {
+    mexErrMsgIdAndTxt("l1c:l1qc_dct:outofmemory", "Error Allocating memory.");
+  }
+
 } /* ------- mexFunction ends here ----- */
diff --git a/interfaces/mex/nesta_dctTV_mex.c b/interfaces/mex/nesta_dctTV_mex.c
index e1c98cd..ca2394b 100644
--- a/interfaces/mex/nesta_dctTV_mex.c
+++ b/interfaces/mex/nesta_dctTV_mex.c
@@ -104,6 +104,10 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
      dont change data in Matlabs workspace.
   */
   pix_idx = calloc(n, sizeof(l1c_int));
+  if (!pix_idx) {
+    status = L1C_OUT_OF_MEMORY;
+    goto exit1;
+  }
 
   /*
     pix_idx will naturally be a double we supplied from matlab
@@ -126,7 +130,8 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
 
   x0 = l1c_malloc_double(ax_funs.m);
   b_ours = l1c_malloc_double(n);
-  if (NULL == pix_idx || NULL == b_ours || NULL == x0) {
+  if (NULL == b_ours || NULL == x0) {
+    ax_funs.destroy();
     status = L1C_OUT_OF_MEMORY;
     goto exit1;
   }
-- 
2.43.0


From b0b63cf6d68b8b7e368951ca877d0a3a0ccff936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:47 +0000
Subject: [PATCH 22/23] fix: l1c_nesta refuses an operator set without Ax or
 Aty

It checked Wz, Wtx, Rx and Rty, but calls Ax and Aty.
---
 src/nesta.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index fe61060..2701a5b 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -273,7 +273,8 @@ int l1c_nesta_setup(l1c_NestaProb* NP,
                     l1c_NestaOpts* opts) {
 
   double L = 0;
-  if (!ax_funs.Wz || !ax_funs.Wtx || !ax_funs.Rx || !ax_funs.Rty) {
+  if (!ax_funs.Wz || !ax_funs.Wtx || !ax_funs.Rx || !ax_funs.Rty || !ax_funs.Ax ||
+      !ax_funs.Aty) {
     return L1C_INCONSISTENT_ARGUMENTS;
   }
   L = ax_funs.norm_W * ax_funs.norm_W;
-- 
2.43.0


From 97335d30ee33f4b8f3ccf33cfcd4fe60b719a6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:24 +0000
Subject: [PATCH 23/23] fix: l1c_nesta_setup takes the sup norm over all p
 dictionary coefficients

The absolute value was taken of the first m coefficients only, so with TV
terms the starting smoothing parameter depended on their sign.
---
 src/nesta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index 2701a5b..aab34b9 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -298,7 +298,7 @@ int l1c_nesta_setup(l1c_NestaProb* NP,
   cblas_dcopy(NP->m, NP->Atb, 1, NP->xo, 1);
 
   NP->ax_funs.Wtx(NP->xo, Wtx_ref);
-  l1c_abs_vec(NP->m, Wtx_ref, Wtx_ref);
+  l1c_abs_vec(NP->p, Wtx_ref, Wtx_ref);
   /* Never start below mu_final. In particular, mu0 must not be zero when b = 0.*/
   double mu0 = max(0.9 * l1c_max_vec(NP->p, Wtx_ref), mu_final);
 
-- 
2.43.0

