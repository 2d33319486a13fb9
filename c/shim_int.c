/* Access to the solver ingredients that include/nesta.h and include/l1qc_newton.h declare.
 * Built apart from shim.c, so that only the checks that need it depend on it. */
#include "config.h"
#include <stdlib.h>
#include <string.h>

#include "l1c.h"
#include "l1c_math.h"
#include "l1qc_newton.h"
#include "nesta.h"

extern l1c_AxFuns sh_slots[];
#define slots sh_slots
extern l1c_L1qcOpts sh_mk_opts(const double*);
extern l1c_NestaOpts sh_mk_nopts(const double*);

/* NESTA internals (declared in nesta.h) */
void* sh_np_new(int slot) { return _l1c_NestaProb_new(slots[slot]); }
void sh_np_free(void* np) { l1c_free_nesta_problem(np); }
int sh_np_setup(void* np_, int slot, double* b, double* opts, double* out) {
  l1c_NestaProb* np = np_;
  l1c_NestaOpts o = sh_mk_nopts(opts);
  double bm = 0, bt = 0;
  int st = l1c_nesta_setup(np, &bm, &bt, b, slots[slot], &o);
  out[0] = bm;
  out[1] = bt;
  out[2] = np->mu_j;
  out[3] = np->tol_j;
  out[4] = np->sigma;
  out[5] = np->L;
  out[6] = np->mu;
  out[7] = np->tol;
  out[8] = np->n_continue;
  return st;
}
void sh_np_set_mu(void* np, double mu_j) { ((l1c_NestaProb*)np)->mu_j = mu_j; }
double* sh_np_arr(void* np_, int which) {
  l1c_NestaProb* np = np_;
  switch (which) {
  case 0:
    return np->xo;
  case 1:
    return np->xk;
  case 2:
    return np->Atb;
  case 3:
    return np->gradf;
  }
  return NULL;
}
double sh_np_feval(void* np) {
  l1c_nesta_feval(np);
  return ((l1c_NestaProb*)np)->fx;
}
void sh_np_project(void* np, double* xx, double* g, double* vk) {
  l1c_nesta_project(np, xx, g, vk);
}
/* push nv values through a fresh fifo; means[i] = mean after i+1 pushes */
int sh_fifo(int nv, double* v, double* means) {
  struct l1c_fmean_fifo f = _l1c_new_fmean_fifo();
  if (!f.f_vals)
    return 1;
  for (int i = 0; i < nv; i++) {
    _l1c_push_fmeans_fifo(&f, v[i]);
    means[i] = _l1c_mean_fmean_fifo(&f);
  }
  free(f.f_vals);
  return 0;
}
int sh_fifo_len(void) { return L1C_NESTA_NMEAN; }
int sh_nesta_maxinner(void) { return L1C_NESTA_MAX_INNER_ITER; }

/* ------------------------------------------------- log-barrier Newton ingredients */
typedef struct {
  l1c_l1qcProb P;
  double* gradf;
} Lb;

static double* dup0(int n) { return l1c_calloc_double(n > 0 ? n : 1); }

void* sh_lb_new(int slot, int m, int n, double* b, double eps, double tau) {
  Lb* L = calloc(1, sizeof *L);
  l1c_l1qcProb* P = &L->P;
  P->m = m;
  P->n = n;
  P->b = b;
  P->epsilon = eps;
  P->tau = tau;
  P->r = dup0(n);
  P->fu1 = dup0(m);
  P->fu2 = dup0(m);
  P->w1p = dup0(m);
  P->dx = dup0(m);
  P->du = dup0(m);
  P->sig11 = dup0(m);
  P->sig12 = dup0(m);
  P->ntgu = dup0(m);
  P->gradf = dup0(2 * m);
  P->DWORK7 = l1c_calloc_double_2D(7, m);
  P->ax_funs = slots[slot];
  return L;
}
void sh_lb_free(void* L_) {
  l1c_l1qcProb* P = &((Lb*)L_)->P;
  l1c_free_double(P->r);
  l1c_free_double(P->fu1);
  l1c_free_double(P->fu2);
  l1c_free_double(P->w1p);
  l1c_free_double(P->dx);
  l1c_free_double(P->du);
  l1c_free_double(P->sig11);
  l1c_free_double(P->sig12);
  l1c_free_double(P->ntgu);
  l1c_free_double(P->gradf);
  l1c_free_double_2D(7, P->DWORK7);
  free(L_);
}
double* sh_lb_arr(void* L, int which) {
  l1c_l1qcProb* P = &((Lb*)L)->P;
  switch (which) {
  case 0:
    return P->r;
  case 1:
    return P->fu1;
  case 2:
    return P->fu2;
  case 3:
    return P->dx;
  case 4:
    return P->du;
  case 5:
    return P->gradf;
  }
  return NULL;
}
double sh_lb_feval(void* L, double* x, double* u) {
  return _l1c_l1qc_f_eval(&((Lb*)L)->P, x, u);
}
double sh_lb_fval(void* L) { return ((Lb*)L)->P.f_val; }
int sh_lb_feasible(void* L, double* x) {
  return _l1c_l1qc_check_feasible_start(&((Lb*)L)->P, x);
}
int sh_lb_descent(void* L, double tol, int max_iter, double* cgres, int* cgiter) {
  l1c_CgParams cp;
  l1c_CgResults cr;
  memset(&cp, 0, sizeof cp);
  memset(&cr, 0, sizeof cr);
  cp.tol = tol;
  cp.max_iter = max_iter;
  int st = _l1c_l1qc_descent_dir(&((Lb*)L)->P, cp, &cr);
  *cgres = cr.cgres;
  *cgiter = cr.cgiter;
  return st;
}
double sh_lb_maxstep(void* L) { return _l1c_l1qc_find_max_step(&((Lb*)L)->P); }
int sh_lb_init(int m, double* x, double* u, double* opts, double* tau, int* lbiter) {
  l1c_L1qcOpts o = sh_mk_opts(opts);
  int st = _l1c_l1qc_newton_init(m, x, u, &o);
  *tau = o.tau;
  *lbiter = o.lbiter;
  return st;
}

