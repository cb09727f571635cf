// Abstract OSQP: records what it is given, answers what the witness scripts.
// Ownership follows OSQP 0.6.3: setup copies data and settings; setup that fails
// leaves *work untouched; the solution vectors are never null.
#pragma once
#include <osqp/osqp.h>
#include <limits>
#include "sa.h"
#define OSQ_N 400
#define OSQ_NZ 6000
struct OsqpStub {
  // script
  int setup_ret = 0, solve_ret = 0;
  long long status = OSQP_SOLVED;
  int alloc_fail_at = 0; // the n-th allocation through OSQP's allocator fails
  // record of the last setup
  int setups = 0, solves = 0, cleanups = 0, live = 0, warm_calls = 0;
  long long n, m;
  long long Pm, Pn, Pnz, Am, An, Anz;
  long long Pp[OSQ_N + 1], Ap[OSQ_N + 1];
  long long Pi[OSQ_NZ], Ai[OSQ_NZ];
  double Px[OSQ_NZ], Ax[OSQ_NZ];
  double q[OSQ_N], l[OSQ_N], u[OSQ_N];
  OSQPSettings set;
  bool warmed;           // iterate supplied before the solve
  long long warm_setting; // in force at the solve
  double wx[OSQ_N], wy[OSQ_N];
  double obj;
  double x[OSQ_N], y[OSQ_N]; // what the solver answers
};
extern OsqpStub OS;
#ifdef SA_MAIN
OsqpStub OS;
extern "C" {
static bool osq_fails() { return OS.alloc_fail_at > 0 && --OS.alloc_fail_at == 0; }
void *osq_malloc(size_t n) { return osq_fails() ? nullptr : malloc(n); }
void *osq_calloc(size_t n, size_t k) { return osq_fails() ? nullptr : calloc(n, k); }
void osq_free(void *p) { free(p); }
void osqp_set_default_settings(OSQPSettings *s) {
  s->rho = 0.1; s->sigma = 1e-6; s->scaling = 10; s->adaptive_rho = 1; s->adaptive_rho_interval = 0; s->adaptive_rho_tolerance = 5; s->adaptive_rho_fraction = 0.4;
  s->max_iter = 4000; s->eps_abs = 1e-3; s->eps_rel = 1e-3; s->eps_prim_inf = 1e-4; s->eps_dual_inf = 1e-4; s->alpha = 1.6; s->linsys_solver = 0; s->delta = 1e-6;
  s->polish = 0; s->polish_refine_iter = 3; s->verbose = 1; s->scaled_termination = 0; s->check_termination = 25; s->warm_start = 1; s->time_limit = 0;
}
static void osq_rec(const csc *M, long long &m, long long &n, long long &nz, long long *p, long long *i, double *x) {
  m = M->m; n = M->n;
  for (long long k = 0; k <= M->n; k++) p[k] = M->p[k];
  nz = M->p[M->n];
  for (long long k = 0; k < nz; k++) { i[k] = M->i[k]; x[k] = M->x[k]; }
}
c_int osqp_setup(OSQPWorkspace **workp, const OSQPData *d, const OSQPSettings *s) {
  OS.setups++;
  if (!d || !s) return OSQP_DATA_VALIDATION_ERROR;
  OS.n = d->n; OS.m = d->m;
  if (!d->P || !d->A) return OSQP_DATA_VALIDATION_ERROR;
  osq_rec(d->P, OS.Pm, OS.Pn, OS.Pnz, OS.Pp, OS.Pi, OS.Px);
  osq_rec(d->A, OS.Am, OS.An, OS.Anz, OS.Ap, OS.Ai, OS.Ax);
  for (long long k = 0; k < d->n; k++) OS.q[k] = d->q[k];
  for (long long k = 0; k < d->m; k++) { OS.l[k] = d->l[k]; OS.u[k] = d->u[k]; }
  OS.set = *s;
  OS.warmed = false;
  OS.warm_setting = s->warm_start;
  if (OS.setup_ret) return OS.setup_ret;
  OSQPWorkspace *w = (OSQPWorkspace *)malloc(sizeof(OSQPWorkspace));
  w->data = nullptr;
  w->settings = (OSQPSettings *)malloc(sizeof(OSQPSettings));
  *w->settings = *s;
  w->solution = (OSQPSolution *)malloc(sizeof(OSQPSolution));
  w->solution->x = (double *)calloc(1, d->n * sizeof(double));
  w->solution->y = (double *)calloc(1, d->m * sizeof(double));
  w->info = (OSQPInfo *)malloc(sizeof(OSQPInfo));
  w->info->status_val = OSQP_UNSOLVED;
  w->info->iter = 0; w->info->status_polish = 0; w->info->obj_val = 0; w->info->pri_res = 0; w->info->dua_res = 0; w->info->run_time = 0; w->info->status[0] = 0;
  w->info->setup_time = 0; w->info->solve_time = 0; w->info->update_time = 0; w->info->polish_time = 0; w->info->rho_updates = 0; w->info->rho_estimate = 0;
  *workp = w;
  OS.live++;
  return 0;
}
c_int osqp_solve(OSQPWorkspace *w) {
  if (!w) return OSQP_WORKSPACE_NOT_INIT_ERROR;
  OS.solves++;
  OS.warm_setting = w->settings->warm_start;
  if (OS.solve_ret) return OS.solve_ret;
  long long st = OS.status;
  w->info->status_val = st;
  w->info->obj_val = OS.obj;
  if (st == OSQP_SIGINT) return 1; // an interrupt leaves the solution as it was
  bool has = st == OSQP_SOLVED || st == OSQP_SOLVED_INACCURATE || st == OSQP_MAX_ITER_REACHED || st == OSQP_TIME_LIMIT_REACHED;
  for (long long k = 0; k < OS.n; k++) w->solution->x[k] = has ? OS.x[k] : std::numeric_limits<double>::quiet_NaN();
  for (long long k = 0; k < OS.m; k++) w->solution->y[k] = has ? OS.y[k] : std::numeric_limits<double>::quiet_NaN();
  return 0;
}
c_int osqp_cleanup(OSQPWorkspace *w) {
  if (!w) return 0;
  OS.cleanups++;
  OS.live--;
  free(w->solution->x);
  free(w->solution->y);
  free(w->solution);
  free(w->info);
  free(w->settings);
  free(w);
  return 0;
}
c_int osqp_warm_start(OSQPWorkspace *w, const c_float *x, const c_float *y) {
  if (!w) return OSQP_WORKSPACE_NOT_INIT_ERROR;
  OS.warm_calls++;
  if (!w->settings->warm_start) w->settings->warm_start = 1;
  OS.warmed = true;
  for (long long k = 0; k < OS.n; k++) OS.wx[k] = x[k];
  for (long long k = 0; k < OS.m; k++) OS.wy[k] = y[k];
  return 0;
}
c_int osqp_warm_start_x(OSQPWorkspace *w, const c_float *x) {
  if (!w) return OSQP_WORKSPACE_NOT_INIT_ERROR;
  OS.warm_calls++;
  w->settings->warm_start = 1;
  OS.warmed = true;
  for (long long k = 0; k < OS.n; k++) OS.wx[k] = x[k];
  for (long long k = 0; k < OS.m; k++) OS.wy[k] = 0;
  return 0;
}
c_int osqp_warm_start_y(OSQPWorkspace *w, const c_float *y) {
  if (!w) return OSQP_WORKSPACE_NOT_INIT_ERROR;
  OS.warm_calls++;
  w->settings->warm_start = 1;
  OS.warmed = true;
  for (long long k = 0; k < OS.n; k++) OS.wx[k] = 0;
  for (long long k = 0; k < OS.m; k++) OS.wy[k] = y[k];
  return 0;
}
#define UPD(name, field, type) c_int osqp_update_##name(OSQPWorkspace *w, type v) { if (!w) return OSQP_WORKSPACE_NOT_INIT_ERROR; w->settings->field = v; OS.set.field = v; return 0; }
UPD(max_iter, max_iter, c_int)
UPD(eps_abs, eps_abs, c_float)
UPD(eps_rel, eps_rel, c_float)
UPD(rho, rho, c_float)
UPD(alpha, alpha, c_float)
UPD(verbose, verbose, c_int)
UPD(polish, polish, c_int)
UPD(time_limit, time_limit, c_float)
c_int osqp_update_warm_start(OSQPWorkspace *w, c_int v) {
  if (!w) return OSQP_WORKSPACE_NOT_INIT_ERROR;
  w->settings->warm_start = v;
  return 0;
}
csc *csc_spalloc(c_int m, c_int n, c_int nzmax, c_int values, c_int triplet) {
  if (osq_fails()) return nullptr;
  csc *A = (csc *)calloc(1, sizeof(csc));
  A->m = m; A->n = n;
  A->nzmax = nzmax = nzmax > 1 ? nzmax : 1;
  A->nz = triplet ? 0 : -1;
  A->p = (c_int *)malloc((triplet ? nzmax : n + 1) * sizeof(c_int));
  A->i = (c_int *)malloc(nzmax * sizeof(c_int));
  A->x = values ? (c_float *)malloc(nzmax * sizeof(c_float)) : nullptr;
  return A;
}
csc *csc_matrix(c_int m, c_int n, c_int nzmax, c_float *x, c_int *i, c_int *p) {
  if (osq_fails()) return nullptr;
  csc *A = (csc *)malloc(sizeof(csc));
  A->m = m; A->n = n; A->nz = -1; A->nzmax = nzmax; A->x = x; A->i = i; A->p = p;
  return A;
}
void csc_spfree(csc *A) {
  if (!A) return;
  if (A->p) free(A->p);
  if (A->i) free(A->i);
  if (A->x) free(A->x);
  free(A);
}
}
#endif
