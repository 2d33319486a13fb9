/* Flat C layer between the harness and libl1c.  It is compiled against the headers of
 * the tree under test, so struct layouts are never duplicated on the harness side. */
#include "config.h"
#include <math.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "bregman.h"
#include "json_utils.h"
#include "l1c.h"
#include "l1c_logging.h"
#include "l1c_math.h"
#include "l1qc_newton.h" /* LSStat, LSParams */
#include "linesearch.h"
#include "vcl_math.h"

/* ------------------------------------------------------------------ operators */
#define NSLOT 8
l1c_AxFuns sh_slots[NSLOT];
#define slots sh_slots

enum { K_DCT = 0, K_DCT1, K_DCT2, K_TV, K_MAT };

/* The struct is zeroed first, so an operator the setup left unset is visible as NULL.*/
int sh_setup(int slot,
             int kind,
             int n,
             int mrow,
             int mcol,
             double av,
             double ah,
             int dct_mode,
             int bp_mode,
             int* idx,
             double* A) {
  /* slot | 0x100: hand the structure over as it is */
  l1c_AxFuns* ax = &slots[slot & 0xff];
  if (!(slot & 0x100))
    memset(ax, 0, sizeof *ax);
  switch (kind) {
  case K_DCT:
    return l1c_setup_dct_transforms(n, mrow, mcol, (DctMode)dct_mode, idx, ax);
  case K_DCT1:
    return l1c_dct1_setup(n, mrow * mcol, idx, ax);
  case K_DCT2:
    return l1c_dct2_setup(n, mrow, mcol, idx, ax);
  case K_TV:
    return l1c_setup_dctTV_transforms(
        n, mrow, mcol, av, ah, (DctMode)dct_mode, (BpMode)bp_mode, idx, ax);
  case K_MAT:
    return l1c_setup_matrix_transforms(n, mrow, A, ax);
  }
  return -1;
}

static l1c_AxFuns saved_ax;
void sh_slot_fill(int slot, int byte) { memset(&slots[slot], byte, sizeof slots[0]); }
void sh_slot_save(int slot) { memcpy(&saved_ax, &slots[slot], sizeof saved_ax); }
int sh_slot_same(int slot) { return memcmp(&saved_ax, &slots[slot], sizeof saved_ax) == 0; }
void sh_dims(int slot, int* out) {
  out[0] = slots[slot].n;
  out[1] = slots[slot].q;
  out[2] = slots[slot].m;
  out[3] = slots[slot].p;
}
double sh_normW(int slot) { return slots[slot].norm_W; }
void sh_set_normW(int slot, double v) { slots[slot].norm_W = v; }
void sh_copy_slot(int from, int to) { slots[to] = slots[from]; }

static void (**op_ptr(l1c_AxFuns* ax, int op))(double*, double*) {
  switch (op) {
  case 0:
    return &ax->Ax;
  case 1:
    return &ax->Aty;
  case 2:
    return &ax->AtAx;
  case 3:
    return &ax->Mx;
  case 4:
    return &ax->Mty;
  case 5:
    return &ax->Wz;
  case 6:
    return &ax->Wtx;
  case 7:
    return &ax->Rx;
  case 8:
    return &ax->Rty;
  }
  return NULL;
}

int sh_apply(int slot, int op, double* in, double* out) {
  void (*f)(double*, double*) = *op_ptr(&slots[slot], op);
  if (!f)
    return -1;
  f(in, out);
  return 0;
}
void sh_null_op(int slot, int op) { *op_ptr(&slots[slot], op) = NULL; }

int sh_destroy(int slot) {
  if (!slots[slot].destroy)
    return -1;
  slots[slot].destroy();
  memset(&slots[slot], 0, sizeof slots[slot]);
  return 0;
}

/* --- counting wrappers: deterministic "does it terminate" limit ---------------- */
static l1c_AxFuns inner;
static long op_count, op_limit;
static jmp_buf op_jmp;
static int op_jmp_set;

static void tick(void) {
  op_count++;
  if (op_limit > 0 && op_count > op_limit && op_jmp_set)
    longjmp(op_jmp, 1);
}
static void c_Ax(double* a, double* b) { tick(); inner.Ax(a, b); }
static void c_Aty(double* a, double* b) { tick(); inner.Aty(a, b); }
static long n_AtAx;
static void c_AtAx(double* a, double* b) { tick(); n_AtAx++; inner.AtAx(a, b); }
long sh_n_atax(void) { return n_AtAx; }

static l1c_AxFuns counted(int slot, long limit) {
  l1c_AxFuns ax = slots[slot];
  inner = ax;
  op_count = 0;
  n_AtAx = 0;
  op_limit = limit;
  if (limit > 0) {
    if (ax.Ax)
      ax.Ax = c_Ax;
    if (ax.Aty)
      ax.Aty = c_Aty;
    if (ax.AtAx)
      ax.AtAx = c_AtAx;
  }
  return ax;
}
long sh_op_count(void) { return op_count; }

/* ---------------------------------------------------------------------- l1qc */
l1c_L1qcOpts sh_mk_opts(const double* o) {
  l1c_L1qcOpts p;
  memset(&p, 0, sizeof p);
  p.epsilon = o[0];
  p.mu = o[1];
  p.lbtol = o[2];
  p.tau = o[3];
  p.lbiter = (int)o[4];
  p.newton_tol = o[5];
  p.newton_max_iter = (int)o[6];
  p.verbose = (int)o[7];
  p.l1_tol = o[8];
  p.cg_tol = o[9];
  p.cg_maxiter = (int)o[10];
  p.cg_verbose = (int)o[11];
  p.warm_start_cg = (int)o[12];
  p.dct_mode = (DctMode)(int)o[13];
  return p;
}

static void put_res(double* res, l1c_LBResult r) {
  res[0] = r.l1;
  res[1] = r.total_newton_iter;
  res[2] = r.total_cg_iter;
  res[3] = r.status;
}

/* returns 0, or 99 when the operator-application limit was hit */
int sh_l1qc(
    int slot, int m, double* x, int n, double* b, double* opts, double* res, long limit) {
  l1c_AxFuns ax = counted(slot, limit);
  op_jmp_set = 1;
  if (setjmp(op_jmp)) {
    op_jmp_set = 0;
    return 99;
  }
  l1c_LBResult r = l1c_l1qc_newton(m, x, n, b, sh_mk_opts(opts), ax);
  op_jmp_set = 0;
  put_res(res, r);
  return 0;
}

int sh_l1qc_dct(int mrow,
                int mcol,
                double* x_out,
                int n,
                double* b,
                int* pix_idx,
                double* opts,
                double* res) {
  l1c_LBResult r;
  memset(&r, 0, sizeof r);
  r.l1 = res[0];
  r.total_newton_iter = (int)res[1];
  r.total_cg_iter = (int)res[2];
  r.status = (int)res[3];
  int st = l1qc_dct(mrow, mcol, x_out, n, b, pix_idx, sh_mk_opts(opts), &r);
  put_res(res, r);
  return st;
}

/* --------------------------------------------------------------------- nesta */
l1c_NestaOpts sh_mk_nopts(const double* o) {
  l1c_NestaOpts p;
  memset(&p, 0, sizeof p);
  p.mu = o[0];
  p.tol = o[1];
  p.sigma = o[2];
  p.n_continue = (int)o[3];
  p.verbose = (int)o[4];
  return p;
}
int sh_nesta(int slot, int m, double* xk, int n, double* b, double* opts) {
  return l1c_nesta(m, xk, n, b, slots[slot], sh_mk_nopts(opts));
}

/* ------------------------------------------------------------------------ CG */
typedef struct {
  int N;
  double* A;
  long calls, limit;
  int badn, nonfinite;
} CgD;

static void cg_mv(int n, double* x, double* b, void* d_) {
  CgD* d = d_;
  d->calls++;
  if (d->limit > 0 && d->calls > d->limit && op_jmp_set)
    longjmp(op_jmp, 1);
  if (n != d->N)
    d->badn = 1;
  for (int i = 0; i < d->N; i++) {
    double s = 0;
    for (int j = 0; j < d->N; j++)
      s += d->A[(size_t)i * d->N + j] * x[j];
    b[i] = s;
  }
}

/* out: [cgres, cgiter, calls, ret, badn]; returns 99 if the call limit was hit.
   res0 prefilled in cgres/cgiter so an unset result is visible. */
int sh_cg(int N,
          double* x,
          double* b,
          double* A,
          double* minv,
          double** work,
          double tol,
          int max_iter,
          int verbose,
          long limit,
          double* out) {
  CgD d = {N, A, 0, limit, 0, 0};
  l1c_CgResults r;
  r.cgres = -1;
  r.cgiter = -1;
  l1c_CgParams p;
  memset(&p, 0, sizeof p);
  p.tol = tol;
  p.max_iter = max_iter;
  p.verbose = verbose;
  op_jmp_set = 1;
  if (setjmp(op_jmp)) {
    op_jmp_set = 0;
    return 99;
  }
  int st;
  if (minv)
    st = l1c_cgsolve_diag_precond(N, x, b, minv, work, cg_mv, &d, &r, p);
  else
    st = l1c_cgsolve(N, x, b, work, cg_mv, &d, &r, p);
  op_jmp_set = 0;
  out[0] = r.cgres;
  out[1] = r.cgiter;
  out[2] = (double)d.calls;
  out[3] = st;
  out[4] = d.badn;
  return 0;
}

/* --------------------------------------------------------------- line search */
void sh_ls(int n,
           double* x,
           double* dx,
           double* fx0,
           double g,
           void* data,
           double (*f)(void*, double*),
           double s,
           double alpha,
           double beta,
           double* work,
           double* out) {
  LSParams p;
  memset(&p, 0, sizeof p);
  p.s = s;
  p.alpha = alpha;
  p.beta = beta;
  LSStat st = l1c_linesearch(n, x, dx, fx0, g, data, f, p, work);
  out[0] = st.flin;
  out[1] = st.step;
  out[2] = st.iter;
  out[3] = st.status;
}
void sh_ls_xu(int n,
              double* x,
              double* u,
              double* dx,
              double* du,
              double* fx0,
              double g,
              void* data,
              double (*f)(void*, double*, double*),
              double s,
              double alpha,
              double beta,
              double** work,
              double* out) {
  LSParams p;
  memset(&p, 0, sizeof p);
  p.s = s;
  p.alpha = alpha;
  p.beta = beta;
  LSStat st = l1c_linesearch_xu(n, x, u, dx, du, fx0, g, data, f, p, work);
  out[0] = st.flin;
  out[1] = st.step;
  out[2] = st.iter;
  out[3] = st.status;
}
int sh_ls_max(void) { return MAX_LINESEARCH_ITER; }

/* ------------------------------------------------------------------- kernels */
void sh_daxpby(int N, double a, double* x, double b, double* y) {
  l1c_daxpby(N, a, x, b, y);
}
double sh_imin(int a, int b) { return imin(a, b); }
double sh_imax(int a, int b) { return imax(a, b); }
double sh_min(double a, double b) { return min(a, b); }
double sh_max(double a, double b) { return max(a, b); }

/* bregman function table */
void sh_breg_shrink(int N, double* x, double* d, double g) {
  breg_get_functions().breg_shrink1(N, x, d, g);
}
void sh_breg_mxpy(int N, double* x, double* y, double* z) {
  breg_get_functions().breg_mxpy_z(N, x, y, z);
}
void sh_breg_gs(int n, int m, double* u, double* rhs, double mu, double lam) {
  breg_get_functions().breg_anis_guass_seidel(n, m, u, rhs, mu, lam);
}
void sh_breg_jacobi(
    int n, int m, double* u, double* w, double* rhs, double* D, double lam) {
  breg_get_functions().breg_anis_jacobi(n, m, u, w, rhs, D, lam);
}
void sh_breg_rhs(int n,
                 int m,
                 double* f,
                 double* dx,
                 double* bx,
                 double* dy,
                 double* by,
                 double* rhs,
                 double mu,
                 double lam,
                 double* w1,
                 double* w2) {
  breg_get_functions().breg_anis_rhs(n, m, f, dx, bx, dy, by, rhs, mu, lam, w1, w2);
}
void sh_breg_diag(int n, int m, double mu, double lam, double* D) {
  breg_get_functions().hess_inv_diag(n, m, mu, lam, D);
}

/* ------------------------------------------------------------------- logging */
static char* cap;
static size_t cap_len, cap_cap;
static long cap_calls;
static l1c_printf_t* saved;

static int cap_printf(const char* fmt, ...) {
  char tmp[4096];
  va_list ap;
  va_start(ap, fmt);
  int k = vsnprintf(tmp, sizeof tmp, fmt, ap);
  va_end(ap);
  cap_calls++;
  if (k > 0) {
    size_t kk = (size_t)k < sizeof tmp ? (size_t)k : sizeof tmp - 1;
    if (cap_len + kk + 1 > cap_cap) {
      cap_cap = (cap_len + kk + 1) * 2;
      cap = realloc(cap, cap_cap);
    }
    memcpy(cap + cap_len, tmp, kk);
    cap_len += kk;
    cap[cap_len] = 0;
  }
  return k;
}
static int null_printf(const char* fmt, ...) {
  (void)fmt;
  return 0;
}
static l1c_printf_t* const fns[3] = {printf, cap_printf, null_printf};

/* which: 0 stdio printf, 1 capture, 2 discard.  Returns which one was replaced (-1: some
   other function) */
int sh_log_replace(int which) {
  l1c_printf_t* old = l1c_replace_printf(fns[which]);
  for (int i = 0; i < 3; i++)
    if (old == fns[i])
      return i;
  return -1;
}
int sh_log_current(void) {
  for (int i = 0; i < 3; i++)
    if (l1c_printf == fns[i])
      return i;
  return -1;
}
void sh_log_reset(void) {
  cap_len = 0;
  cap_calls = 0;
  if (cap)
    cap[0] = 0;
}
long sh_log_calls(void) { return cap_calls; }
long sh_log_len(void) { return (long)cap_len; }
const char* sh_log_text(void) { return cap ? cap : ""; }
void sh_flush(void) { fflush(NULL); }

/* ---------------------------------------------------------------------- json */
void* sh_json_load(char* f, int* st) {
  cJSON* j = NULL;
  *st = load_file_to_json(f, &j);
  return j;
}
void sh_json_delete(void* j) { cJSON_Delete(j); }
int sh_json_int(void* j, char* n, int* v) { return extract_json_int(j, n, v); }
int sh_json_double(void* j, char* n, double* v) { return extract_json_double(j, n, v); }
/* the library allocates; the copy goes to out (capacity cap) */
int sh_json_darr(void* j, char* n, double* out, int capn, int* N, int* align) {
  double* x = NULL;
  int st = extract_json_double_array(j, n, &x, N);
  *align = 0;
  if (!st && x) {
    *align = (int)((size_t)x % 64);
    for (int i = 0; i < *N && i < capn; i++)
      out[i] = x[i];
  }
  l1c_free_double(x);
  return st;
}
int sh_json_iarr(void* j, char* n, int* out, int capn, int* N) {
  int* x = NULL;
  int st = extract_json_int_array(j, n, &x, N);
  if (!st && x)
    for (int i = 0; i < *N && i < capn; i++)
      out[i] = x[i];
  free(x);
  return st;
}
int sh_json_text(char* f, char* out, int capn, int* len) {
  char* d = NULL;
  int st = load_file_as_text(f, &d);
  *len = 0;
  if (!st && d) {
    *len = (int)strlen(d);
    int k = *len < capn ? *len : capn - 1;
    memcpy(out, d, k);
    out[k] = 0;
  }
  free(d);
  return st;
}
