// C23: the nonlinear controller with compile-time and with run-time sizes.
#define SA_MAIN
#include "nlmpc.h"
#include "agree.h"
#ifndef DIMS
#define DIMS 2, 1, 2, 3, 2, 2, 1
#endif
using S = NW<false, DIMS>;
using D = NW<true, DIMS>;
static NloptStub A;
static constexpr int NV = S::NV, NM = S::NM, ni = S::ni, ne = S::ne;
static void pts(int k, double *x) { for (int i = 0; i < NV; i++) x[i] = sa_real(NH.pts[k], i, 0); }
static void sameProblem(int evals, const char *rule) {
  const nlopt_opt_s &a = A.at, &b = NL.at;
  sa_ieq(b.n, a.n, rule, 0, 0); sa_ieq(b.ni, a.ni, rule, 0, 1); sa_ieq(b.nh, a.nh, rule, 0, 2); sa_ieq(b.maximize, a.maximize, rule, 0, 3);
  sa_ieq(b.algorithm, a.algorithm, rule, 0, 4); sa_ieq(b.maxeval, a.maxeval, rule, 0, 5);
  if (a.n != b.n || a.ni != b.ni || a.nh != b.nh) return;
  sameReal(a.lb, b.lb, NV, rule, 1); sameReal(a.ub, b.ub, NV, rule, 2); sameReal(a.xtol_abs, b.xtol_abs, NV, rule, 3);
  sa_veq(b.ftol_rel, a.ftol_rel, rule, 4, 0); sa_veq(b.ftol_abs, a.ftol_abs, rule, 4, 1); sa_veq(b.xtol_rel, a.xtol_rel, rule, 4, 2); sa_veq(b.maxtime, a.maxtime, rule, 4, 3);
  sameReal(A.guess, NL.guess, NV, rule, 5);
  for (int k = 0; k < a.ni; k++) { sa_ieq(b.g[k].m, a.g[k].m, rule, 6, k); sameReal(a.g[k].tol, b.g[k].tol, a.g[k].m, rule, 7); }
  for (int k = 0; k < a.nh; k++) { sa_ieq(b.h[k].m, a.h[k].m, rule, 8, k); sameReal(a.h[k].tol, b.h[k].tol, a.h[k].m, rule, 9); }
  for (int q = 0; q < evals; q++) {
    sa_veq(NL.e[q].val, A.e[q].val, rule, 10, q);
    sameReal(A.e[q].grad, NL.e[q].grad, NV, rule, 11);
    for (int k = 0; k < a.ni; k++) { sameReal(A.e[q].g[k], NL.e[q].g[k], a.g[k].m, rule, 12); sameReal(A.e[q].Jg[k], NL.e[q].Jg[k], a.g[k].m * NV, rule, 13); }
    for (int k = 0; k < a.nh; k++) { sameReal(A.e[q].h[k], NL.e[q].h[k], a.h[k].m, rule, 14); sameReal(A.e[q].Jh[k], NL.e[q].Jh[k], a.h[k].m * NV, rule, 15); }
  }
}
struct Both {
  S s;
  D d;
  void create() { s.create(); d.create(); }
  void destroy() { s.destroy(); d.destroy(); }
  template <class F> void each(F f) {
    int a = f(s), b = f(d);
    sa_ieq(b, a, "C23.accepted", 0, 0);
  }
  void solve(const char *x, const char *u, int evals, nlopt_result st = NLOPT_SUCCESS) {
    auto arm = [&] { NL.evals = evals; NL.order = 0; NL.point = pts; };
    arm();
    s.solverAnswers("X", "O", st);
    auto a = s.solve(x, u);
    A = NL;
    arm();
    d.solverAnswers("X", "O", st);
    auto b = d.solve(x, u);
    sameProblem(evals, "C23.problem");
    sameResult(a, b, "C23.result");
    sameResult(s.c->getLastResult(), d.c->getLastResult(), "C23.result");
    sameSequence(s.c->getOptimalSequence(), d.c->getOptimalSequence(), "C23.sequence");
  }
};
extern "C" void e_agree() {
  Both b;
  b.create();
  b.each([](auto &w) { w.everything(); return 1; });
  b.solve("x0", "u0", 1);
  b.each([](auto &w) { return w.xb("xl", "xh") && w.ubnd("ul", "uh"); });
  b.each([](auto &w) { w.params(true, false); return 1; });
  b.solve("x1", "u1", 0);
  b.each([](auto &w) { w.sample(sa_real("+ts", 0, 0)); return 1; });
  b.solve("x1", "u1", 1);
  b.solve("x1", "u1", 0, NLOPT_FAILURE);
  b.solve("x0", "u0", 0, NLOPT_MAXEVAL_REACHED);
  b.each([](auto &w) { w.scaleX("+sx"); w.scaleU("+su"); return 1; });
  b.solve("x1", "u1", 1);
  b.destroy();
}
extern "C" void e_agree_slices() {
  Both b;
  b.create();
  b.each([](auto &w) { w.everything(); return 1; });
  const int p = S::ph, c = S::ch;
  const int T[][2] = {{-1, -1}, {0, 1}, {p - 1, p}, {1, p}, {0, p}, {0, p + 1}, {c - 1, c}, {0, c}, {1, 1}, {2, 1}, {-1, 1}, {-2, -1}, {0, 0}, {p, p + 1}};
  for (auto &t : T) {
    HorizonSlice h(t[0], t[1]);
    b.each([&](auto &w) { using Z = std::decay_t<decltype(w)>; return (int)w.c->setStateBounds(Z::template symV<Z::nx>("a", h.start), Z::template symV<Z::nx>("b", h.end), h); });
    b.each([&](auto &w) { using Z = std::decay_t<decltype(w)>; return (int)w.c->setInputBounds(Z::template symV<Z::nu>("c", h.start), Z::template symV<Z::nu>("d", h.end), h); });
    if (t[0] == -1 || (t[0] >= 0 && t[0] < t[1] && t[1] <= p)) b.solve("x0", "u0", 0);
  }
  b.solve("x0", "u0", 0);
  b.destroy();
}
