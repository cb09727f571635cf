// Reference model of the nonlinear controller's configuration and the obligations
// on everything that crosses the boundary to NLopt and to the user's functions.
#pragma once
#include <mpc/NLMPC.hpp>
#include <stdexcept>
#include "nlopt_stub.h"
using mpc::HorizonSlice;
static const double INF = std::numeric_limits<double>::infinity();
struct NlHooks {
  double cval[16], hval[16];   // values the user constraints answer instead of unknowns
  bool fixed = false;
  int fail_in = 0;             // which user function throws: 1 objective 2 model 3 output 4 inequality 5 equality
  int fail_how = 0, fail_after = 0;
  int calls[6] = {};
  bool fixedSlack = false;
  const char *pts[2] = {"z", "w"};
};
extern NlHooks NH;
#ifdef SA_MAIN
NlHooks NH;
#endif
static void userCall(int which) {
  NH.calls[which]++;
  if (NH.fail_in != which || NH.fail_after-- > 0) return;
  switch (NH.fail_how) {
  case 0: throw std::runtime_error("user");
  case 1: throw std::invalid_argument("user");
  case 2: throw std::bad_alloc();
  case 3: throw nlopt::forced_stop();
  case 4: throw nlopt::roundoff_limited();
  case 5: throw 42;
  }
}
template <bool DYN, int nx_, int nu_, int ny_, int ph_, int ch_, int ni_, int ne_>
struct NW {
  static constexpr bool dynamic = DYN;
  static constexpr int nx = nx_, nu = nu_, ny = ny_, ph = ph_, ch = ch_, ni = ni_, ne = ne_;
  static constexpr int NV = ph * nx + ch * nu + 1, NM = ph * nx;
  static_assert(NV <= NL_N && NM <= NL_M && ni <= 16 && ne <= 16, "the stand-in's arrays");
  using C = std::conditional_t<DYN, mpc::NLMPC<>, mpc::NLMPC<nx, nu, ny, ph, ch, ni, ne>>;
  template <int r, int c> using Mx = std::conditional_t<DYN, mpc::mat<>, mpc::mat<r, c>>;
  template <int r> using Vx = std::conditional_t<DYN, mpc::cvec<>, mpc::cvec<r>>;
  static int zx(int k, int i) { return (k - 1) * nx + i; }
  static int zu(int k, int i) { return ph * nx + (k < ch ? k : ch - 1) * nu + i; }
  struct T { double X[ph + 1][nx], U[ph + 1][nu], Y[ph + 1][ny], e; };

  C *c = nullptr;
  // ---- the settings in force according to the calls made
  const char *fo = nullptr, *ff = nullptr, *fg = nullptr, *fi = nullptr, *fe = nullptr;
  float ti = 0, te = 0, tf = 0;
  bool cont = false, hard = true, warm = false;
  double ts = 0, sx[nx], su[nu], lb[NV], ub[NV], x0[nx], u0[nu];
  double last[NV]; // physical optimum of the last solve that worked
  bool has = false;

  NW() {
    for (int i = 0; i < nx; i++) sx[i] = 1;
    for (int i = 0; i < nu; i++) su[i] = 1;
    for (int i = 0; i < NV; i++) { lb[i] = -INF; ub[i] = INF; }
    lb[NV - 1] = ub[NV - 1] = 0; // the slack is closed unless the constraints are soft
  }
  static C *make() {
    if constexpr (DYN) return new C(nx, nu, ny, ph, ch, ni, ne);
    else return new C();
  }
  void create() { c = make(); }
  void destroy() { delete c; c = nullptr; }

  // ---- values: "0.." zeros, anything else unknown numbers; likewise functions
  static double num(const char *n, int i, int j) { // "#..": numbers of all magnitudes
    const double t[] = {1.1e-20, 3.3e9, -2.7e12, 0, 1.9, -1.3e-9, 4.1e15, -7.7e-5, 123456.789, -1.7, 5.9e31, -2.3e-33};
    return t[(n[1] + 5 * i + 7 * j) % 12];
  }
  static double val(const char *n, int i, int j) {
    if (n[0] == '#') return num(n, i, j);
    return n[0] == '0' ? 0.0 : sa_real(n, i, j);
  }
  static double fun(const char *n, int i, const double *a, int k) { return n[0] == '0' ? 0.0 : sa_fun(n, i, a, k); }
  template <int r> static Vx<r> symV(const char *n, int col = 0) {
    Vx<r> m;
    if constexpr (DYN) m.resize(r);
    for (int i = 0; i < r; i++) m(i) = val(n, i, col);
    return m;
  }
  template <int r, int cc> static Mx<r, cc> symM(const char *n) {
    Mx<r, cc> m;
    if constexpr (DYN) m.resize(r, cc);
    for (int i = 0; i < r; i++) for (int j = 0; j < cc; j++) m(i, j) = val(n, i, j);
    return m;
  }

  // ---- user functions: unknown functions of everything they are given
  template <class A> static int pack(double *a, int n, const A &m, int rows, int cols) {
    sa_ieq(m.rows(), rows, "C12.shape", rows, 0);
    sa_ieq(m.cols(), cols, "C12.shape", cols, 1);
    for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) a[n++] = m(i, j);
    return n;
  }
  bool objective(const char *n) {
    bool r = c->setObjectiveFunction([n](const auto &X, const auto &Y, const auto &U, const double &e) -> double {
      userCall(1);
      double a[(ph + 1) * (nx + nu + ny) + 1];
      int k = pack(a, 0, X, ph + 1, nx); k = pack(a, k, Y, ph + 1, ny); k = pack(a, k, U, ph + 1, nu);
      a[k++] = e;
      return fun(n, 0, a, k);
    });
    if (r) fo = n;
    return r;
  }
  bool model(const char *n, float tol = 1e-10) {
    bool r = c->setStateSpaceFunction([n](auto &dx, const auto &x, const auto &u, const unsigned &k) {
      userCall(2);
      double a[nx + nu + 1];
      int p = pack(a, 0, x, nx, 1); p = pack(a, p, u, nu, 1);
      a[p++] = k;
      sa_ieq(dx.rows(), nx, "C12.shape", 0, 2);
      for (int i = 0; i < nx; i++) dx(i) = fun(n, i, a, p);
    }, tol);
    if (r) { ff = n; tf = tol; }
    return r;
  }
  bool output(const char *n) {
    bool r = c->setOutputFunction([n](auto &y, const auto &x, const auto &u, const unsigned &k) {
      userCall(3);
      double a[nx + nu + 1];
      int p = pack(a, 0, x, nx, 1); p = pack(a, p, u, nu, 1);
      a[p++] = k;
      sa_ieq(y.rows(), ny, "C12.shape", 0, 3);
      for (int i = 0; i < ny; i++) y(i) = fun(n, i, a, p);
    });
    if (r) fg = n;
    return r;
  }
  bool ineq(const char *n, float tol) {
    bool r = c->setIneqConFunction([n](auto &v, const auto &X, const auto &Y, const auto &U, const double &e) {
      userCall(4);
      double a[(ph + 1) * (nx + nu + ny) + 1];
      int k = pack(a, 0, X, ph + 1, nx); k = pack(a, k, Y, ph + 1, ny); k = pack(a, k, U, ph + 1, nu);
      a[k++] = e;
      sa_ieq(v.rows(), ni, "C12.shape", 0, 4);
      for (int i = 0; i < ni; i++) v(i) = NH.fixed ? NH.cval[i] : fun(n, i, a, k);
    }, tol);
    if (r) { fi = n; ti = tol; }
    return r;
  }
  bool eq(const char *n, float tol) {
    bool r = c->setEqConFunction([n](auto &v, const auto &X, const auto &U) {
      userCall(5);
      double a[(ph + 1) * (nx + nu)];
      int k = pack(a, 0, X, ph + 1, nx); k = pack(a, k, U, ph + 1, nu);
      sa_ieq(v.rows(), ne, "C12.shape", 0, 5);
      for (int i = 0; i < ne; i++) v(i) = NH.fixed ? NH.hval[i] : fun(n, i, a, k);
    }, tol);
    if (r) { fe = n; te = tol; }
    return r;
  }
  void everything(const char *o = "o", const char *f = "f", const char *g = "g", const char *i = "i", const char *e = "e") {
    objective(o); model(f); if (g) output(g);
    if (ni && i) ineq(i, 0.25f);
    if (ne && e) eq(e, 0.5f);
  }
  void sample(double t) { c->setDiscretizationSamplingTime(t); cont = true; ts = t; }
  void scaleX(const char *n) { auto v = symV<nx>(n); c->setStateScale(v); for (int i = 0; i < nx; i++) sx[i] = v(i); }
  void scaleU(const char *n) { auto v = symV<nu>(n); c->setInputScale(v); for (int i = 0; i < nu; i++) su[i] = v(i); }
  void params(bool warm_, bool hard_) {
    mpc::NLParameters p;
    p.enable_warm_start = warm_;
    p.hard_constraints = hard_;
    c->setOptimizerParameters(p);
    warm = warm_;
    hard = hard_;
    lb[NV - 1] = hard ? 0 : -INF;
    ub[NV - 1] = hard ? 0 : INF;
  }
  // an upper limit is not below the lower one
  static double hi(const char *l, const char *h, int i, int j) {
    if (h[0] == '0') return val(l, i, j);
    if (h[0] == '#') { double w = val(h, i, j); return val(l, i, j) + (w < 0 ? -w : w); }
    char b[8] = {'+'};
    for (int k = 0; k < 6 && h[k]; k++) b[k + 1] = h[k];
    return val(l, i, j) + sa_real(b, i, j);
  }
  template <int r> static Vx<r> hiV(const char *l, const char *h) { Vx<r> m = symV<r>(h); for (int i = 0; i < r; i++) m(i) = hi(l, h, i, 0); return m; }
  template <int r, int cc> static Mx<r, cc> hiM(const char *l, const char *h) { Mx<r, cc> m = symM<r, cc>(h); for (int i = 0; i < r; i++) for (int j = 0; j < cc; j++) m(i, j) = hi(l, h, i, j); return m; }
  bool xb(const char *l, const char *h) {
    bool r = c->setStateBounds(symM<nx, ph>(l), hiM<nx, ph>(l, h));
    if (r) for (int k = 0; k < ph; k++) for (int i = 0; i < nx; i++) { lb[zx(k + 1, i)] = val(l, i, k); ub[zx(k + 1, i)] = hi(l, h, i, k); }
    return r;
  }
  bool ubnd(const char *l, const char *h) {
    bool r = c->setInputBounds(symM<nu, ch>(l), hiM<nu, ch>(l, h));
    if (r) for (int k = 0; k < ch; k++) for (int i = 0; i < nu; i++) { lb[zu(k, i)] = val(l, i, k); ub[zu(k, i)] = hi(l, h, i, k); }
    return r;
  }
  static int from(const HorizonSlice &s) { return s.start == -1 && s.end == -1 ? 0 : s.start; }
  static int to(const HorizonSlice &s, int all) { return s.start == -1 && s.end == -1 ? all : s.start < 0 || s.end > all ? s.start : s.end; }
  bool xbV(const char *l, const char *h, const HorizonSlice &s) {
    bool r = c->setStateBounds(symV<nx>(l), hiV<nx>(l, h), s);
    for (int k = from(s); k < to(s, ph); k++) for (int i = 0; i < nx; i++) { lb[zx(k + 1, i)] = val(l, i, 0); ub[zx(k + 1, i)] = hi(l, h, i, 0); }
    return r;
  }
  bool ubV(const char *l, const char *h, const HorizonSlice &s) {
    bool r = c->setInputBounds(symV<nu>(l), hiV<nu>(l, h), s);
    for (int k = from(s); k < to(s, ch); k++) for (int i = 0; i < nu; i++) { lb[zu(k, i)] = val(l, i, 0); ub[zu(k, i)] = hi(l, h, i, 0); }
    return r;
  }

  // ---- what a decision vector denotes
  double scale(int j) const { return j == NV - 1 ? 1 : j < ph * nx ? sx[j % nx] : su[(j - ph * nx) % nu]; }
  void step(const char *f, int i, const double *x, const double *u, int k, double &out) const {
    double a[nx + nu + 1];
    for (int j = 0; j < nx; j++) a[j] = x[j];
    for (int j = 0; j < nu; j++) a[nx + j] = u[j];
    a[nx + nu] = k;
    out = fun(f, i, a, nx + nu + 1);
  }
  void denote(const double *z, T &t) const {
    for (int i = 0; i < nx; i++) t.X[0][i] = x0[i];
    for (int k = 1; k <= ph; k++) for (int i = 0; i < nx; i++) t.X[k][i] = z[zx(k, i)] * sx[i];
    for (int k = 0; k <= ph; k++) for (int i = 0; i < nu; i++) t.U[k][i] = z[zu(k < ph ? k : ph - 1, i)] * su[i];
    for (int k = 0; k <= ph; k++) for (int i = 0; i < ny; i++) { if (fg) step(fg, i, t.X[k], t.U[k], k, t.Y[k][i]); else t.Y[k][i] = 0; }
    t.e = z[NV - 1];
  }
  double valO(const T &t) const { return con(fo, 0, t, true); }
  static double con(const char *n, int i, const T &t, bool full) {
    double a[(ph + 1) * (nx + nu + ny) + 1];
    int p = 0;
    for (int k = 0; k <= ph; k++) for (int j = 0; j < nx; j++) a[p++] = t.X[k][j];
    if (full) for (int k = 0; k <= ph; k++) for (int j = 0; j < ny; j++) a[p++] = t.Y[k][j];
    for (int k = 0; k <= ph; k++) for (int j = 0; j < nu; j++) a[p++] = t.U[k][j];
    if (full) a[p++] = t.e;
    return fun(n, i, a, p);
  }
  double valM(const T &t, int r) const {
    int k = r / nx, i = r % nx;
    double a, b;
    if (!cont) { step(ff, i, t.X[k], t.U[k], k, a); return (t.X[k + 1][i] - a) / sx[i]; }
    step(ff, i, t.X[k], t.U[k], k, a);
    step(ff, i, t.X[k + 1], t.U[k], k, b);
    return (t.X[k][i] + ts / 2 * (a + b) - t.X[k + 1][i]) / sx[i];
  }
  // ---- the functions handed to the solver, at an evaluated point
  static const NlCon *find(const NlCon *c, int n, unsigned m) { for (int k = 0; k < n; k++) if (c[k].m == m) return &c[k]; return nullptr; }
  void functions(const NlEval &e, bool grad) const {
    T t;
    const nlopt_opt_s &at = NL.at;
    int gi = -1, hu = -1, hm = -1;
    for (int k = 0; k < at.ni; k++) if (at.g[k].m == ni) gi = k;
    for (int k = 0; k < at.nh; k++) { if (at.h[k].m == NM) hm = k; else if (at.h[k].m == ne) hu = k; }
    sa_ieq(at.ni, fi ? 1 : 0, "C30.registered", 0, 0);
    sa_ieq(at.nh, (fe ? 1 : 0) + (ff ? 1 : 0), "C30.registered", 0, 1);
    sa_ieq(at.n, NV, "C12.size", 0, 0);
    sa_true(!fi || gi >= 0, "C14.registered", 0, 0);
    sa_true(!fe || hu >= 0, "C14.registered", 0, 1);
    sa_true(!ff || hm >= 0, "C15.registered", 0, 0);
    denote(e.x, t);
    sa_ieq(at.maximize, 0, "C12.objective", 0, 1);
    sa_eq(&e.val, valO(t), fg ? "C12.objective" : "C30.outputs", 0, 0);
    if (gi >= 0) for (int i = 0; i < ni; i++) sa_eq(&e.g[gi][i], con(fi, i, t, true), "C14.inequality", i, 0);
    if (hu >= 0) for (int i = 0; i < ne; i++) sa_eq(&e.h[hu][i], con(fe, i, t, false), "C14.equality", i, 0);
    int sign[NM];
    if (hm >= 0) for (int r = 0; r < NM; r++) sign[r] = sa_eq_pm(&e.h[hm][r], valM(t, r), "C15.residual", r / nx, r % nx);
    if (!grad) return;
    const double h = 1e-4;
    for (int j = 0; j < NV; j++) {
      double z[NV];
      T a, b;
      for (int i = 0; i < NV; i++) z[i] = e.x[i];
      z[j] = e.x[j] + h; denote(z, a);
      z[j] = e.x[j] - h; denote(z, b);
      sa_eq_tol(&e.grad[j], (valO(a) - valO(b)) / (2 * h), "C13.gradient", j, 0, 3e-3);
      if (gi >= 0) for (int i = 0; i < ni; i++) sa_eq_tol(&e.Jg[gi][i * NV + j], (con(fi, i, a, true) - con(fi, i, b, true)) / (2 * h), "C14.jacobian.inequality", i, j, 3e-3);
      if (hu >= 0) for (int i = 0; i < ne; i++) sa_eq_tol(&e.Jh[hu][i * NV + j], (con(fe, i, a, false) - con(fe, i, b, false)) / (2 * h), "C14.jacobian.equality", i, j, 3e-3);
      if (hm >= 0) for (int r = 0; r < NM; r++) sa_eq_tol(&e.Jh[hm][r * NV + j], sign[r] * (valM(a, r) - valM(b, r)) / (2 * h), "C15.jacobian", r, j, 3e-3);
    }
  }
  void tolerances(const char *rule) const {
    Also a(rule);
    rule = "C20.tolerance";
    const nlopt_opt_s &at = NL.at;
    sa_ieq(at.ni, fi ? 1 : 0, rule, 0, 0);
    sa_ieq(at.nh, (fe ? 1 : 0) + (ff ? 1 : 0), rule, 0, 1);
    for (int k = 0; k < at.ni; k++) for (int i = 0; i < ni; i++) sa_eq(&at.g[k].tol[i], (double)ti, rule, i, 2);
    for (int k = 0; k < at.nh; k++) {
      if (at.h[k].m == NM) for (int i = 0; i < NM; i++) sa_eq(&at.h[k].tol[i], (double)tf, rule, i, 3);
      else for (int i = 0; i < ne; i++) sa_eq(&at.h[k].tol[i], (double)te, rule, i, 4);
    }
  }
  double loZ(int j) const { double s = scale(j); return (s < 0 ? ub[j] : lb[j]) / s; }
  double hiZ(int j) const { double s = scale(j); return (s < 0 ? lb[j] : ub[j]) / s; }
  void bounds(const char *rule, bool atSolve = false) const {
    Also a(rule);
    const char *R = "C16.bounds";
    if (!atSolve) sa_true(NL.last != nullptr, R, -1, 0);
    for (int j = 0; j < NV; j++) {
      sa_eq(atSolve ? &NL.at.lb[j] : &NL.last->lb[j], loZ(j), R, j, 0);
      sa_eq(atSolve ? &NL.at.ub[j] : &NL.last->ub[j], hiZ(j), R, j, 1);
    }
  }
  // ---- solving
  void solverAnswers(const char *x, const char *cost, nlopt_result ret = NLOPT_SUCCESS) {
    for (int i = 0; i < NV; i++) NL.x[i] = val(x, i, 0);
    NL.cost = val(cost, 0, 0);
    NL.ret = ret;
  }
  mpc::Result<DYN ? -1 : nu> solve(const char *nx0, const char *nu0) {
    auto a = symV<nx>(nx0);
    auto b = symV<nu>(nu0);
    for (int i = 0; i < nx; i++) x0[i] = a(i);
    for (int i = 0; i < nu; i++) u0[i] = b(i);
    auto r = c->optimize(a, b);
    return r;
  }
  void remember() { for (int j = 0; j < NV; j++) last[j] = NL.x[j] * scale(j); has = true; } // after a solve that worked
  // the starting point in force at the last solve
  void guess(const char *rule) const {
    Also a(rule);
    double g[NV];
    bool w = warm && has;
    for (int k = 0; k < ph; k++) for (int i = 0; i < nx; i++) g[zx(k + 1, i)] = w ? last[zx(k + 1 < ph ? k + 2 : ph, i)] : x0[i];
    for (int k = 0; k < ch; k++) for (int i = 0; i < nu; i++) g[zu(k, i)] = w ? last[zu(k + 1 < ph ? k + 1 : ph - 1, i)] : u0[i];
    g[NV - 1] = w ? last[NV - 1] : 0;
    for (int j = 0; j < NV; j++) {
      double v = g[j] / scale(j), l = loZ(j), h = hiZ(j);
      v = v < l ? l : v;
      v = h < v ? h : v;
      sa_eq(&NL.guess[j], v, w ? "C19.warm" : "C19.cold", j, 0);
    }
  }
  template <class Q> void answer(const Q &r, const char *rule, bool code = true) const {
    Also a(rule);
    const char *R = "C17.result";
    sa_ieq(r.cmd.rows(), nu, R, 0, 0);
    for (int i = 0; i < nu; i++) sa_eq(&r.cmd(i), NL.x[zu(0, i)] * su[i], R, i, 1);
    sa_eq(&r.cost, NL.cost, R, 0, 2);
    if (code) sa_ieq(r.solver_status, NL.ret, R, 0, 3);
  }
  template <class Q> void sequence(const Q &s, const char *rule) const {
    Also a(rule);
    const char *R = "C17.sequence";
    T t;
    denote(NL.x, t);
    shape(s, R);
    for (int k = 0; k <= ph; k++) {
      for (int i = 0; i < nx; i++) sa_veq(s.state(k, i), t.X[k][i], R, k, i);
      for (int i = 0; i < nu; i++) sa_veq(s.input(k, i), t.U[k][i], R, k, 100 + i);
      for (int i = 0; i < ny; i++) sa_veq(s.output(k, i), t.Y[k][i], R, k, 200 + i);
    }
  }
  template <class Q> static void shape(const Q &s, const char *rule) {
    sa_true(s.state.rows() == ph + 1 && s.state.cols() == nx, rule, -1, 0);
    sa_true(s.input.rows() == ph + 1 && s.input.cols() == nu, rule, -1, 1);
    sa_true(s.output.rows() == ph + 1 && s.output.cols() == ny, rule, -1, 2);
  }
  template <class Q> static void zero(const Q &s, const char *rule) {
    shape(s, rule);
    for (int k = 0; k <= ph; k++) {
      for (int i = 0; i < nx; i++) sa_veq(s.state(k, i), 0, rule, k, i);
      for (int i = 0; i < nu; i++) sa_veq(s.input(k, i), 0, rule, k, 100 + i);
      for (int i = 0; i < ny; i++) sa_veq(s.output(k, i), 0, rule, k, 200 + i);
    }
  }
  template <class Q> static void cmdIs(const Q &r, const double *want, const char *rule) {
    sa_ieq(r.cmd.rows(), nu, rule, 0, 0);
    for (int i = 0; i < nu; i++) sa_eq(&r.cmd(i), want[i], rule, i, 1);
  }
};
