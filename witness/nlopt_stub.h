// Abstract NLopt behind the real nlopt.hpp: records what it is given, evaluates the
// callbacks at the points the witness scripts, answers what the witness scripts.
// Argument checks, ownership (munge) and error codes follow NLopt 2.7.1.
#pragma once
#include <nlopt.hpp>
#include <cmath>
#include <limits>
#include "sa.h"
#define NL_N 64
#define NL_M 64
#define NL_C 4
struct NlCon { unsigned m; nlopt_mfunc mf; nlopt_func f; void *data; double tol[NL_M]; };
struct nlopt_opt_s {
  unsigned n;
  int algorithm;
  nlopt_func f;
  void *f_data;
  int maximize;
  int ni, nh;
  NlCon g[NL_C], h[NL_C];
  double lb[NL_N], ub[NL_N], xtol_abs[NL_N], x_weights[NL_N];
  double stopval, ftol_rel, ftol_abs, xtol_rel, maxtime;
  int maxeval, numevals, force_stop;
  nlopt_munge on_destroy, on_copy;
};
struct NlEval { // one evaluation at one point
  double x[NL_N];
  double val;
  double grad[NL_N];
  double g[NL_C][NL_M], Jg[NL_C][NL_M * NL_N];
  double h[NL_C][NL_M], Jh[NL_C][NL_M * NL_N];
};
struct NloptStub {
  // script
  int create_fails = 0;
  int refuse = 0;              // the refuse-th registration from now runs out of memory
  nlopt_result ret = NLOPT_SUCCESS;
  int evals = 0;               // points to evaluate at
  void (*point)(int k, double *x) = nullptr;
  int order = 0;               // how callbacks interleave
  double cost = 0;
  double x[NL_N];              // what the solver answers
  void (*before)(int what, int index, const double *x) = nullptr; // about to call objective(0)/inequality(1)/equality(2)
  // record
  int creates = 0, live = 0, optimizes = 0;
  nlopt_opt last = nullptr;    // the solver last configured or run
  nlopt_opt_s at;              // its settings at the last optimize
  double guess[NL_N];
  NlEval e[3];
  // nlopt_get_errmsg text
  const char *errmsg = nullptr;
};
extern NloptStub NL;
#ifdef SA_MAIN
NloptStub NL;
extern "C" {
nlopt_opt nlopt_create(nlopt_algorithm a, unsigned n) {
  if (NL.create_fails) return nullptr;
  nlopt_opt o = (nlopt_opt)malloc(sizeof(nlopt_opt_s));
  o->algorithm = a; o->n = n; o->f = nullptr; o->f_data = nullptr; o->maximize = 0; o->ni = o->nh = 0;
  o->stopval = -HUGE_VAL; o->ftol_rel = o->ftol_abs = o->xtol_rel = 0; o->maxtime = 0; o->maxeval = 0; o->numevals = 0; o->force_stop = 0;
  o->on_destroy = o->on_copy = nullptr;
  for (unsigned i = 0; i < n; i++) { o->lb[i] = -HUGE_VAL; o->ub[i] = HUGE_VAL; o->xtol_abs[i] = 0; o->x_weights[i] = 1; }
  NL.creates++; NL.live++;
  NL.last = o;
  return o;
}
static void nl_drop(nlopt_opt o, NlCon *c, int &k) {
  if (o->on_destroy) for (int i = 0; i < k; i++) o->on_destroy(c[i].data);
  k = 0;
}
void nlopt_destroy(nlopt_opt o) {
  if (!o) return;
  if (o->on_destroy && o->f_data) o->on_destroy(o->f_data);
  nl_drop(o, o->g, o->ni);
  nl_drop(o, o->h, o->nh);
  NL.live--;
  if (NL.last == o) NL.last = nullptr;
  free(o);
}
nlopt_opt nlopt_copy(const nlopt_opt o) {
  if (!o) return nullptr;
  nlopt_opt c = (nlopt_opt)malloc(sizeof(nlopt_opt_s));
  c->algorithm = o->algorithm; c->n = o->n; c->f = o->f; c->maximize = o->maximize; c->ni = o->ni; c->nh = o->nh;
  c->stopval = o->stopval; c->ftol_rel = o->ftol_rel; c->ftol_abs = o->ftol_abs; c->xtol_rel = o->xtol_rel; c->maxtime = o->maxtime; c->maxeval = o->maxeval; c->numevals = 0; c->force_stop = 0;
  c->on_destroy = o->on_destroy; c->on_copy = o->on_copy;
  c->f_data = o->f_data && o->on_copy ? o->on_copy(o->f_data) : o->f_data;
  for (unsigned i = 0; i < o->n; i++) { c->lb[i] = o->lb[i]; c->ub[i] = o->ub[i]; c->xtol_abs[i] = o->xtol_abs[i]; c->x_weights[i] = o->x_weights[i]; }
  for (int k = 0; k < o->ni; k++) { c->g[k].m = o->g[k].m; c->g[k].mf = o->g[k].mf; c->g[k].f = o->g[k].f; c->g[k].data = o->on_copy ? o->on_copy(o->g[k].data) : o->g[k].data; for (unsigned i = 0; i < o->g[k].m; i++) c->g[k].tol[i] = o->g[k].tol[i]; }
  for (int k = 0; k < o->nh; k++) { c->h[k].m = o->h[k].m; c->h[k].mf = o->h[k].mf; c->h[k].f = o->h[k].f; c->h[k].data = o->on_copy ? o->on_copy(o->h[k].data) : o->h[k].data; for (unsigned i = 0; i < o->h[k].m; i++) c->h[k].tol[i] = o->h[k].tol[i]; }
  NL.creates++; NL.live++;
  NL.last = c;
  return c;
}
void nlopt_set_munge(nlopt_opt o, nlopt_munge d, nlopt_munge c) { if (o) { o->on_destroy = d; o->on_copy = c; } }
unsigned nlopt_get_dimension(const nlopt_opt o) { return o->n; }
nlopt_algorithm nlopt_get_algorithm(const nlopt_opt o) { return (nlopt_algorithm)o->algorithm; }
const char *nlopt_get_errmsg(nlopt_opt) { return NL.errmsg; }
int nlopt_get_numevals(const nlopt_opt o) { return o->numevals; }
static bool nl_refuse() { return NL.refuse && --NL.refuse == 0; }
static nlopt_result nl_obj(nlopt_opt o, nlopt_func f, void *d, int mx) {
  if (!o) return NLOPT_INVALID_ARGS;
  if (nl_refuse()) { if (o->on_destroy) o->on_destroy(d); return NLOPT_OUT_OF_MEMORY; }
  if (o->on_destroy && o->f_data) o->on_destroy(o->f_data);
  o->f = f; o->f_data = d; o->maximize = mx; o->stopval = mx ? HUGE_VAL : -HUGE_VAL;
  NL.last = o;
  return NLOPT_SUCCESS;
}
nlopt_result nlopt_set_min_objective(nlopt_opt o, nlopt_func f, void *d) { return nl_obj(o, f, d, 0); }
nlopt_result nlopt_set_max_objective(nlopt_opt o, nlopt_func f, void *d) { return nl_obj(o, f, d, 1); }
static unsigned nl_count(NlCon *c, int k) { unsigned t = 0; for (int i = 0; i < k; i++) t += c[i].m; return t; }
static nlopt_result nl_add(nlopt_opt o, NlCon *c, int &k, unsigned m, nlopt_mfunc mf, nlopt_func f, void *d, const double *tol, bool eq) {
  if (!m) { if (o && o->on_destroy) o->on_destroy(d); return NLOPT_SUCCESS; }
  if (!o) return NLOPT_INVALID_ARGS;
  bool bad = (eq && nl_count(c, k) + m > o->n) || (!mf && !f) || k >= NL_C;
  if (tol) for (unsigned i = 0; i < m; i++) bad = bad || tol[i] < 0;
  if (bad) { if (o->on_destroy) o->on_destroy(d); return NLOPT_INVALID_ARGS; }
  if (nl_refuse()) { if (o->on_destroy) o->on_destroy(d); return NLOPT_OUT_OF_MEMORY; }
  c[k].m = m; c[k].mf = mf; c[k].f = f; c[k].data = d;
  for (unsigned i = 0; i < m; i++) c[k].tol[i] = tol ? tol[i] : 0;
  k++;
  NL.last = o;
  return NLOPT_SUCCESS;
}
nlopt_result nlopt_add_inequality_mconstraint(nlopt_opt o, unsigned m, nlopt_mfunc f, void *d, const double *tol) { return nl_add(o, o->g, o->ni, m, f, nullptr, d, tol, false); }
nlopt_result nlopt_add_equality_mconstraint(nlopt_opt o, unsigned m, nlopt_mfunc f, void *d, const double *tol) { return nl_add(o, o->h, o->nh, m, f, nullptr, d, tol, true); }
nlopt_result nlopt_add_inequality_constraint(nlopt_opt o, nlopt_func f, void *d, double tol) { return nl_add(o, o->g, o->ni, 1, nullptr, f, d, &tol, false); }
nlopt_result nlopt_add_equality_constraint(nlopt_opt o, nlopt_func f, void *d, double tol) { return nl_add(o, o->h, o->nh, 1, nullptr, f, d, &tol, true); }
nlopt_result nlopt_remove_inequality_constraints(nlopt_opt o) { nl_drop(o, o->g, o->ni); return NLOPT_SUCCESS; }
nlopt_result nlopt_remove_equality_constraints(nlopt_opt o) { nl_drop(o, o->h, o->nh); return NLOPT_SUCCESS; }
#define VEC(name, field)                                                                                                                                   \
  nlopt_result nlopt_set_##name(nlopt_opt o, const double *v) { if (!o || (o->n && !v)) return NLOPT_INVALID_ARGS; for (unsigned i = 0; i < o->n; i++) o->field[i] = v[i]; NL.last = o; return NLOPT_SUCCESS; } \
  nlopt_result nlopt_set_##name##1(nlopt_opt o, double v) { if (!o) return NLOPT_INVALID_ARGS; for (unsigned i = 0; i < o->n; i++) o->field[i] = v; NL.last = o; return NLOPT_SUCCESS; }                       \
  nlopt_result nlopt_get_##name(const nlopt_opt o, double *v) { if (!o || (o->n && !v)) return NLOPT_INVALID_ARGS; for (unsigned i = 0; i < o->n; i++) v[i] = o->field[i]; return NLOPT_SUCCESS; }
VEC(lower_bounds, lb)
VEC(upper_bounds, ub)
VEC(xtol_abs, xtol_abs)
VEC(x_weights, x_weights)
nlopt_result nlopt_set_lower_bound(nlopt_opt o, int i, double v) { if (!o || i < 0 || i >= (int)o->n) return NLOPT_INVALID_ARGS; o->lb[i] = v; return NLOPT_SUCCESS; }
nlopt_result nlopt_set_upper_bound(nlopt_opt o, int i, double v) { if (!o || i < 0 || i >= (int)o->n) return NLOPT_INVALID_ARGS; o->ub[i] = v; return NLOPT_SUCCESS; }
#define SCAL(T, name)                                                                                             \
  nlopt_result nlopt_set_##name(nlopt_opt o, T v) { if (!o) return NLOPT_INVALID_ARGS; o->name = v; NL.last = o; return NLOPT_SUCCESS; } \
  T nlopt_get_##name(const nlopt_opt o) { return o->name; }
SCAL(double, stopval)
SCAL(double, ftol_rel)
SCAL(double, ftol_abs)
SCAL(double, xtol_rel)
SCAL(double, maxtime)
SCAL(int, maxeval)
SCAL(int, force_stop)
static void nl_record(nlopt_opt o) {
  NL.last = o;
  nlopt_opt_s &t = NL.at;
  t.n = o->n; t.algorithm = o->algorithm; t.f = o->f; t.f_data = o->f_data; t.maximize = o->maximize; t.ni = o->ni; t.nh = o->nh;
  t.stopval = o->stopval; t.ftol_rel = o->ftol_rel; t.ftol_abs = o->ftol_abs; t.xtol_rel = o->xtol_rel; t.maxtime = o->maxtime; t.maxeval = o->maxeval;
  for (unsigned i = 0; i < o->n; i++) { t.lb[i] = o->lb[i]; t.ub[i] = o->ub[i]; t.xtol_abs[i] = o->xtol_abs[i]; t.x_weights[i] = o->x_weights[i]; }
  for (int k = 0; k < o->ni; k++) { t.g[k].m = o->g[k].m; t.g[k].data = o->g[k].data; for (unsigned i = 0; i < o->g[k].m; i++) t.g[k].tol[i] = o->g[k].tol[i]; }
  for (int k = 0; k < o->nh; k++) { t.h[k].m = o->h[k].m; t.h[k].data = o->h[k].data; for (unsigned i = 0; i < o->h[k].m; i++) t.h[k].tol[i] = o->h[k].tol[i]; }
}
static void nl_before(int what, int k, const double *x) { if (NL.before) NL.before(what, k, x); }
static void nl_con(nlopt_opt o, bool eq, NlEval &e, bool grad) {
  int n = eq ? o->nh : o->ni;
  for (int k = 0; k < n; k++) {
    NlCon &c = eq ? o->h[k] : o->g[k];
    double *v = eq ? e.h[k] : e.g[k], *J = grad ? (eq ? e.Jh[k] : e.Jg[k]) : nullptr;
    nl_before(eq ? 2 : 1, k, e.x);
    if (c.mf) c.mf(c.m, v, o->n, e.x, J, c.data);
    else v[0] = c.f(o->n, e.x, J, c.data);
    if (o->force_stop) return;
  }
}
static void nl_objective(nlopt_opt o, NlEval &e, bool grad) {
  nl_before(0, 0, e.x);
  e.val = o->f(o->n, e.x, grad ? e.grad : nullptr, o->f_data);
  o->numevals++;
}
nlopt_result nlopt_optimize(nlopt_opt o, double *x, double *f) {
  if (!o || !f || !o->f) return NLOPT_INVALID_ARGS;
  NL.optimizes++;
  nl_record(o);
  o->numevals = 0;
  o->force_stop = 0;
  *f = HUGE_VAL;
  for (unsigned i = 0; i < o->n; i++) NL.guess[i] = x[i];
  if (NL.ret == NLOPT_INVALID_ARGS || NL.ret == NLOPT_OUT_OF_MEMORY) return NL.ret; // before anything is evaluated
  for (int k = 0; k < NL.evals; k++) {
    NlEval &e = NL.e[k];
    if (NL.point) NL.point(k, e.x);
    else for (unsigned i = 0; i < o->n; i++) e.x[i] = NL.x[i];
    bool grad = !(NL.order & 4);
    if (NL.order & 1) { nl_con(o, true, e, grad); if (!o->force_stop) nl_con(o, false, e, grad); if (!o->force_stop) nl_objective(o, e, grad); }
    else { nl_objective(o, e, grad); if (!o->force_stop) nl_con(o, false, e, grad); if (!o->force_stop) nl_con(o, true, e, grad); }
    if (o->force_stop) return NLOPT_FORCED_STOP;
    if (NL.order & 2) { // a line search: values only, elsewhere, then gradients again
      NlEval &t = NL.e[2];
      for (unsigned i = 0; i < o->n; i++) t.x[i] = sa_real("line", i, k);
      nl_objective(o, t, false); nl_con(o, false, t, false); nl_con(o, true, t, false);
      nl_con(o, true, e, true); nl_con(o, false, e, true); nl_objective(o, e, true);
    }
  }
  for (unsigned i = 0; i < o->n; i++) x[i] = NL.x[i];
  *f = NL.cost;
  return NL.ret;
}
}
#endif
