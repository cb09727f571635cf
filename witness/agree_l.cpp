// C23: the linear controller with compile-time and with run-time sizes.
#define SA_MAIN
#include "lmpc.h"
#include "agree.h"
#ifndef DIMS
#define DIMS 2, 2, 1, 3, 4, 2
#endif
using S = LW<false, DIMS>;
using D = LW<true, DIMS>;
static OsqpStub A;
static void sameProblem(const char *rule) {
  sa_ieq(OS.n, A.n, rule, 0, 0); sa_ieq(OS.m, A.m, rule, 0, 1);
  sa_ieq(OS.Pnz, A.Pnz, rule, 0, 2); sa_ieq(OS.Anz, A.Anz, rule, 0, 3);
  if (OS.n != A.n || OS.m != A.m || OS.Pnz != A.Pnz || OS.Anz != A.Anz) return;
  for (int k = 0; k <= A.n; k++) { sa_ieq(OS.Pp[k], A.Pp[k], rule, 1, k); sa_ieq(OS.Ap[k], A.Ap[k], rule, 2, k); }
  for (int k = 0; k < A.Pnz; k++) { sa_ieq(OS.Pi[k], A.Pi[k], rule, 3, k); sa_veq(OS.Px[k], A.Px[k], rule, 4, k); }
  for (int k = 0; k < A.Anz; k++) { sa_ieq(OS.Ai[k], A.Ai[k], rule, 5, k); sa_veq(OS.Ax[k], A.Ax[k], rule, 6, k); }
  sameReal(A.q, OS.q, A.n, rule, 7);
  sameReal(A.l, OS.l, A.m, rule, 8);
  sameReal(A.u, OS.u, A.m, rule, 9);
  sa_ieq(OS.set.max_iter, A.set.max_iter, rule, 10, 0); sa_ieq(OS.set.polish, A.set.polish, rule, 10, 1); sa_ieq(OS.set.verbose, A.set.verbose, rule, 10, 2);
  sa_ieq(OS.set.warm_start, A.set.warm_start, rule, 10, 3); sa_ieq(OS.set.adaptive_rho, A.set.adaptive_rho, rule, 10, 4);
  sa_veq(OS.set.rho, A.set.rho, rule, 11, 0); sa_veq(OS.set.alpha, A.set.alpha, rule, 11, 1); sa_veq(OS.set.eps_abs, A.set.eps_abs, rule, 11, 2);
  sa_veq(OS.set.eps_rel, A.set.eps_rel, rule, 11, 3); sa_veq(OS.set.eps_prim_inf, A.set.eps_prim_inf, rule, 11, 4); sa_veq(OS.set.eps_dual_inf, A.set.eps_dual_inf, rule, 11, 5);
  sa_veq(OS.set.time_limit, A.set.time_limit, rule, 11, 6);
  sa_ieq(OS.warmed, A.warmed, rule, 12, 0);
  if (A.warmed) { sameReal(A.wx, OS.wx, A.n, rule, 13); sameReal(A.wy, OS.wy, A.m, rule, 14); }
}
// runs the same calls on both and compares after every solve
struct Both {
  S s;
  D d;
  void create() { s.create(); d.create(); }
  void destroy() { s.destroy(); d.destroy(); }
  template <class F> void each(F f) {
    int a = f(s), b = f(d);
    sa_ieq(b, a, "C23.accepted", 0, 0);
  }
  void solve(const char *x, const char *u, long long st = OSQP_SOLVED) {
    s.solverAnswers("X", "Y", "O", st);
    auto a = s.solve(x, u);
    A = OS;
    d.solverAnswers("X", "Y", "O", st);
    auto b = d.solve(x, u);
    sameProblem("C23.problem");
    sameResult(a, b, "C23.result");
    sameResult(s.c->getLastResult(), d.c->getLastResult(), "C23.result");
    sameSequence(s.c->getOptimalSequence(), d.c->getOptimalSequence(), "C23.sequence");
    auto wp = s.c->getSolverWarmStartPrimal(), vp = d.c->getSolverWarmStartPrimal();
    sa_ieq(vp.size(), wp.size(), "C23.iterate", 0, 0);
    if (vp.size() == wp.size()) sameReal(wp, vp, wp.size(), "C23.iterate", 1);
  }
};
extern "C" void e_agree() {
  sa_generic(1);
  Both b;
  b.create();
  b.solve("x0", "u0"); // nothing set
  b.each([](auto &w) { w.everything(); return 1; });
  b.solve("x0", "u0");
  b.solve("x1", "u1", OSQP_PRIMAL_INFEASIBLE);
  b.each([](auto &w) { mpc::LParameters p; p.enable_warm_start = true; p.alpha = sa_real("al", 0, 0); p.rho = sa_real("rho", 0, 0); p.maximum_iteration = 77; w.c->setOptimizerParameters(p); return 1; });
  b.solve("x0", "u0");
  b.solve("x1", "u1", OSQP_MAX_ITER_REACHED);
  b.destroy();
}
extern "C" void e_agree_slices() {
  sa_generic(1);
  Both b;
  b.create();
  b.each([](auto &w) { w.model("A", "B", "C"); if (S::nd) w.dist("Bd", "Dd"); return 1; });
  const int p = S::ph, c = S::ch;
  const int T[][2] = {{-1, -1}, {0, 1}, {p - 1, p}, {1, p}, {0, p}, {0, p + 1}, {c - 1, c}, {0, c}, {1, 1}, {2, 1}, {-1, 1}, {-2, -1}, {0, 0}, {p, p + 1}};
  for (auto &t : T) {
    HorizonSlice h(t[0], t[1]);
    auto in = [&](int top) { return (t[0] == -1 && t[1] == -1) || (t[0] >= 0 && t[0] < t[1] && t[1] <= top); };
    char s[10][5];
    for (int k = 0; k < 10; k++) { s[k][0] = 'v'; s[k][1] = 'a' + k; s[k][2] = 'a' + (int)(&t - T); s[k][3] = 0; }
    auto v = [&](auto &w, int k) -> int {
      using Z = std::decay_t<decltype(w)>;
      auto X = Z::template symV<Z::nx>(s[0]), X2 = Z::template symV<Z::nx>(s[1]);
      auto U = Z::template symV<Z::nu>(s[2]), U2 = Z::template symV<Z::nu>(s[3]), U3 = Z::template symV<Z::nu>(s[4]);
      auto Y = Z::template symV<Z::ny>(s[5]), Y2 = Z::template symV<Z::ny>(s[6]);
      switch (k) {
      case 0: return w.c->setStateBounds(X, X2, h);
      case 1: return w.c->setInputBounds(U, U2, h);
      case 2: return w.c->setOutputBounds(Y, Y2, h);
      case 3: return w.c->setObjectiveWeights(Y, U, U2, h);
      case 4: return w.c->setReferences(Y, U, U3, h);
      case 5: return w.c->setScalarConstraint(sa_real(s[7], 0, 0), sa_real(s[8], 0, 0), X, U, h);
      default: return 1;
      }
    };
    for (int k = 0; k < 6; k++) b.each([&](auto &w) { return v(w, k); });
    if (S::nd) b.each([&](auto &w) { using Z = std::decay_t<decltype(w)>; return (int)w.c->setExogenousInputs(Z::template symV<Z::nd>(s[9]), h); });
    if (in(p)) b.solve("x0", "u0");
  }
  b.solve("x0", "u0");
  b.destroy();
}
