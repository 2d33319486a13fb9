/* Allocation and FFTW-plan accounting with fault injection.  libl1c is linked with
 * -Wl,--wrap=... so that exactly its own calls arrive here.  Outcome of an injected
 * failure: the wrapped call returns what the real one returns on failure. */
#define _GNU_SOURCE
#include <errno.h>
#include <fftw3.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>

static long n_alloc, fail_at, fail_from; /* 1-based; 0 = never */
static long n_live, n_bad_free;
/* fresh memory is never conveniently zero or tiny: 0x40.. is 32.5 as a double */
static int fill_byte = 0x40;

#define TAB (1 << 16)
static void* tab[TAB];

static void put(void* p) {
  if (!p)
    return;
  size_t h = ((size_t)p >> 4) * 2654435761u % TAB;
  for (size_t i = 0; i < TAB; i++) {
    size_t k = (h + i) % TAB;
    if (!tab[k] || tab[k] == (void*)1) {
      tab[k] = p;
      n_live++;
      return;
    }
  }
  abort();
}
static int del(void* p) {
  size_t h = ((size_t)p >> 4) * 2654435761u % TAB;
  for (size_t i = 0; i < TAB; i++) {
    size_t k = (h + i) % TAB;
    if (tab[k] == p) {
      tab[k] = (void*)1;
      n_live--;
      return 1;
    }
    if (!tab[k])
      return 0;
  }
  return 0;
}
static int should_fail(void) {
  n_alloc++;
  return (fail_at && n_alloc == fail_at) || (fail_from && n_alloc >= fail_from);
}

#ifndef PLANONLY
void* __wrap_malloc(size_t s) {
  if (should_fail())
    return NULL;
  void* p = malloc(s);

  if (p)
    memset(p, fill_byte, s);
  put(p);
  return p;
}
void* __wrap_calloc(size_t a, size_t b) {
  if (should_fail())
    return NULL;
  void* p = calloc(a, b);
  put(p);
  return p;
}
void* __wrap_realloc(void* q, size_t s) {
  if (should_fail())
    return NULL;
  if (q)
    del(q);
  void* p = realloc(q, s);
  put(p);
  return p;
}
int __wrap_posix_memalign(void** o, size_t al, size_t s) {
  if (should_fail())
    return ENOMEM; /* *o is left as it was, as POSIX allows */
  int r = posix_memalign(o, al, s);
  if (!r) {
    memset(*o, fill_byte, s);
    put(*o);
  }
  return r;
}
void* __wrap_aligned_alloc(size_t al, size_t s) {
  if (should_fail())
    return NULL;
  void* p = aligned_alloc(al, s);
  if (p)
    memset(p, fill_byte, s);
  put(p);
  return p;
}
void* memalign(size_t, size_t);
void* __wrap_memalign(size_t al, size_t s) {
  if (should_fail())
    return NULL;
  void* p = memalign(al, s);
  if (p)
    memset(p, fill_byte, s);
  put(p);
  return p;
}
void __wrap_free(void* p) {
  if (p && !del(p)) {
    /* not one of ours, or freed twice: count it, do not touch the heap */
    n_bad_free++;
    return;
  }
  free(p);
}
/* other ways to come by memory that free() takes back */
void* __wrap_reallocarray(void* q, size_t a, size_t b) {
  size_t s;
  if (__builtin_mul_overflow(a, b, &s)) {
    errno = ENOMEM;
    return NULL;
  }
  return __wrap_realloc(q, s);
}
char* __wrap_strndup(const char* t, size_t m) {
  if (should_fail())
    return NULL;
  char* p = strndup(t, m);
  put(p);
  return p;
}
char* __wrap_strdup(const char* t) {
  if (should_fail())
    return NULL;
  char* p = strdup(t);
  put(p);
  return p;
}
ssize_t __wrap_getdelim(char** l, size_t* n, int d, FILE* f) {
  char* old = *l;
  if (should_fail()) {
    errno = ENOMEM;
    return -1;
  }
  ssize_t r = getdelim(l, n, d, f);
  if (*l != old) {
    if (old)
      del(old);
    put(*l);
  }
  return r;
}
ssize_t __wrap_getline(char** l, size_t* n, FILE* f) { return __wrap_getdelim(l, n, '\n', f); }

#endif

/* ---- FFTW plans: they also count as fallible acquisitions */
static void* plans[256];
static long plan_live, plan_bad;
static long plan_n[256]; /* elements in and out; 0: not known */
static double* plan_io[256][2];
static void pput(void* p, long n, double* in, double* out) {
  for (int i = 0; i < 256; i++)
    if (!plans[i]) {
      plans[i] = p;
      plan_n[i] = n;
      plan_io[i][0] = in;
      plan_io[i][1] = out;
      plan_live++;
      return;
    }
}
fftw_plan
__wrap_fftw_plan_r2r_1d(int n, double* i, double* o, fftw_r2r_kind k, unsigned f) {
  if (should_fail())
    return NULL;
  /* FFTW_PATIENT only spends longer choosing among equivalent plans */
  f = (f & ~(unsigned)(FFTW_PATIENT | FFTW_EXHAUSTIVE)) | FFTW_ESTIMATE;
  fftw_plan p = fftw_plan_r2r_1d(n, i, o, k, f);
  if (p)
    pput(p, n, i, o);
  return p;
}
fftw_plan __wrap_fftw_plan_r2r_2d(int n0,
                                  int n1,
                                  double* i,
                                  double* o,
                                  fftw_r2r_kind k0,
                                  fftw_r2r_kind k1,
                                  unsigned f) {
  if (should_fail())
    return NULL;
  f = (f & ~(unsigned)(FFTW_PATIENT | FFTW_EXHAUSTIVE)) | FFTW_ESTIMATE;
  fftw_plan p = fftw_plan_r2r_2d(n0, n1, i, o, k0, k1, f);
  if (p)
    pput(p, (long)n0 * n1, i, o);
  return p;
}
fftw_plan __wrap_fftw_plan_r2r(
    int rank, const int* n, double* i, double* o, const fftw_r2r_kind* k, unsigned f) {
  if (should_fail())
    return NULL;
  f = (f & ~(unsigned)(FFTW_PATIENT | FFTW_EXHAUSTIVE)) | FFTW_ESTIMATE;
  fftw_plan p = fftw_plan_r2r(rank, n, i, o, k, f);
  long tot = 1;
  for (int j = 0; j < rank; j++)
    tot *= n[j];
  if (p)
    pput(p, tot, i, o);
  return p;
}
fftw_plan __wrap_fftw_plan_many_r2r(int rank,
                                    const int* n,
                                    int howmany,
                                    double* i,
                                    const int* ie,
                                    int is,
                                    int id,
                                    double* o,
                                    const int* oe,
                                    int os,
                                    int od,
                                    const fftw_r2r_kind* k,
                                    unsigned f) {
  if (should_fail())
    return NULL;
  f = (f & ~(unsigned)(FFTW_PATIENT | FFTW_EXHAUSTIVE)) | FFTW_ESTIMATE;
  fftw_plan p = fftw_plan_many_r2r(rank, n, howmany, i, ie, is, id, o, oe, os, od, k, f);
  if (p)
    pput(p, 0, i, o);
  return p;
}
void __wrap_fftw_destroy_plan(fftw_plan p) {
  if (!p)
    return;
  for (int i = 0; i < 256; i++)
    if (plans[i] == (void*)p) {
      plans[i] = NULL;
      plan_live--;
      fftw_destroy_plan(p);
      return;
    }
  plan_bad++; /* destroyed twice, or never created */
}

void ft_reset(void) {
  n_alloc = 0;
  fail_at = fail_from = 0;
  n_bad_free = 0;
  plan_bad = 0;
}
void ft_arm(long at, long from) {
  n_alloc = 0;
  fail_at = at;
  fail_from = from;
}
long ft_count(void) { return n_alloc; }
long ft_live(void) { return n_live; }
long ft_badfree(void) { return n_bad_free; }
long ft_plans(void) { return plan_live; }
long ft_planbad(void) { return plan_bad; }
/* callers outside libl1c (the harness) release library memory through this */
void ft_disown(void* p) { del(p); }
void ft_fill(int b) { fill_byte = b; }

/* ---- what BLAS and FFTW are handed (they are not instrumented): in the sanitized build
 * every element such a call is asked to read or write has to be addressable */
#ifdef PLANONLY
#include <cblas.h>
extern void* __asan_region_is_poisoned(void*, size_t) __attribute__((weak));
extern void __asan_report_load_n(void*, size_t) __attribute__((weak));
extern void __asan_report_store_n(void*, size_t) __attribute__((weak));

static void look(const double* p, size_t n, int write) {
  if (!n || !__asan_region_is_poisoned)
    return;
  void* bad = __asan_region_is_poisoned((void*)p, n * sizeof(double));
  if (!bad)
    return;
  if (write)
    __asan_report_store_n(bad, sizeof(double));
  else
    __asan_report_load_n(bad, sizeof(double));
  abort();
}
static void vec(const double* p, long n, long inc, int write) {
  if (n <= 0)
    return;
  if (inc == 1) {
    look(p, (size_t)n, write);
    return;
  }
  long i0 = inc < 0 ? (1 - n) * inc : 0;
  for (long i = 0; i < n; i++)
    look(p + i0 + i * inc, 1, write);
}
void __wrap_cblas_dcopy(int n, const double* x, int ix, double* y, int iy) {
  vec(x, n, ix, 0);
  vec(y, n, iy, 1);
  cblas_dcopy(n, x, ix, y, iy);
}
void __wrap_cblas_daxpy(
    int n, double a, const double* x, int ix, double* y, int iy) {
  vec(x, n, ix, 0);
  vec(y, n, iy, 1);
  cblas_daxpy(n, a, x, ix, y, iy);
}
void __wrap_cblas_daxpby(
    int n, double a, const double* x, int ix, double b, double* y, int iy) {
  vec(x, n, ix, 0);
  vec(y, n, iy, 1);
  cblas_daxpby(n, a, x, ix, b, y, iy);
}
void __wrap_cblas_dscal(int n, double a, double* x, int ix) {
  if (ix > 0)
    vec(x, n, ix, 1);
  cblas_dscal(n, a, x, ix);
}
void __wrap_cblas_dswap(int n, double* x, int ix, double* y, int iy) {
  vec(x, n, ix, 1);
  vec(y, n, iy, 1);
  cblas_dswap(n, x, ix, y, iy);
}
double
__wrap_cblas_ddot(int n, const double* x, int ix, const double* y, int iy) {
  vec(x, n, ix, 0);
  vec(y, n, iy, 0);
  return cblas_ddot(n, x, ix, y, iy);
}
double __wrap_cblas_dnrm2(int n, const double* x, int ix) {
  vec(x, n, ix, 0);
  return cblas_dnrm2(n, x, ix);
}
double __wrap_cblas_dasum(int n, const double* x, int ix) {
  vec(x, n, ix, 0);
  return cblas_dasum(n, x, ix);
}
size_t __wrap_cblas_idamax(int n, const double* x, int ix) {
  vec(x, n, ix, 0);
  return cblas_idamax(n, x, ix);
}
void __wrap_cblas_dgemv(enum CBLAS_ORDER o,
                        enum CBLAS_TRANSPOSE t,
                        int m,
                        int n,
                        double alpha,
                        const double* a,
                        int lda,
                        const double* x,
                        int ix,
                        double beta,
                        double* y,
                        int iy) {
  long outer = o == CblasRowMajor ? m : n, inner = o == CblasRowMajor ? n : m;
  for (long i = 0; i < outer; i++)
    vec(a + i * (long)lda, inner, 1, 0);
  vec(x, t == CblasNoTrans ? n : m, ix, 0);
  vec(y, t == CblasNoTrans ? m : n, iy, 1);
  cblas_dgemv(o, t, m, n, alpha, a, lda, x, ix, beta, y, iy);
}
void __wrap_fftw_execute(const fftw_plan p) {
  for (int i = 0; i < 256; i++)
    if (plans[i] == (void*)p && plan_n[i]) {
      look(plan_io[i][0], (size_t)plan_n[i], 0);
      look(plan_io[i][1], (size_t)plan_n[i], 1);
      break;
    }
  fftw_execute(p);
}
void __wrap_fftw_execute_r2r(const fftw_plan p, double* in, double* out) {
  for (int i = 0; i < 256; i++)
    if (plans[i] == (void*)p && plan_n[i]) {
      look(in, (size_t)plan_n[i], 0);
      look(out, (size_t)plan_n[i], 1);
      break;
    }
  fftw_execute_r2r(p, in, out);
}
#endif
