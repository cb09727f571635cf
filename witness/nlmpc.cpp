// Nonlinear controller.  Compiled once per configuration (-DCFG=...).
#define SA_MAIN
#include "nlmpc.h"
#include <climits>
#ifndef CFG
#define CFG NW<false, 2, 1, 2, 3, 2, 2, 1>
#endif
using W = CFG;
#define STR2(...) #__VA_ARGS__
#define STR(...) STR2(__VA_ARGS__)
#define ENTRY(name) extern "C" void name##_body(); extern "C" void name() { sa_scope(STR(CFG) " " #name); sa_heap_mark(); name##_body(); sa_heap_check("C10.leak"); sa_ieq(NL.live, 0, "C10.leak", 0, 0); } void name##_body()
static constexpr int ph = W::ph, ch = W::ch, NV = W::NV;
static void pts(int k, double *x) {
  for (int i = 0; i < NL_N; i++) x[i] = W::val(NH.pts[k], i, 0);
  if (NH.fixedSlack) x[NV - 1] = 0;
}
template <class V> static void good(V &w, const char *R = "C17.result");
template <class V> static void evaluated(V &w, int evals, int order, const char *x0 = "x0", const char *u0 = "u0") {
  NL.evals = evals; NL.order = order; NL.point = pts;
  w.solve(x0, u0);
  NL.evals = 0; NL.order = 0;
  for (int k = 0; k < evals; k++) w.functions(NL.e[k], !(order & 4));
}
// C12 C13 C14 C15: what the solver sees at the points it evaluates
ENTRY(e_values) {
  W w;
  w.create();
  w.everything();
  w.solverAnswers("Xa", "Oa");
  evaluated(w, 2, 4);
  evaluated(w, 2, 5, "x1", "u1");
  w.destroy();
}
ENTRY(e_discrete) {
  W w;
  w.create();
  w.everything();
  w.solverAnswers("Xa", "Oa");
  evaluated(w, 1, 0);
  w.destroy();
}
ENTRY(e_continuous) {
  W w;
  w.create();
  w.everything();
  w.sample(sa_real("+ts", 0, 0));
  w.solverAnswers("Xa", "Oa");
  evaluated(w, 1, 1);
  w.sample(sa_real("+tt", 0, 0));
  evaluated(w, 2, 5, "x1", "u1");
  w.destroy();
}
// zero is a value like any other: in the point, the current state, the limits, the answer, and what the functions return
ENTRY(e_zero) {
  W w;
  w.create();
  w.everything();
  w.params(true, false);
  w.xb("0", "0");
  w.solverAnswers("0", "0");
  NH.pts[0] = "0";
  evaluated(w, 1, 0, "0", "0");
  w.bounds("C16.bounds", true);
  w.guess("C19.zero");
  good(w);
  w.remember();
  w.ubnd("ul", "0");
  NH.pts[0] = "z";
  w.solverAnswers("Xa", "Oa");
  evaluated(w, 1, 4, "x1", "0");
  w.guess("C19.zero");
  good(w);
  w.remember();
  const char *fs[4][5] = {{"0", "f", "g", "i", "e"}, {"o", "0", "g", "i", "0"}, {"o", "f", "0", "0", "e"}, {"o1", "f1", "g1", "i1", "e1"}};
  for (int k = 0; k < 4; k++) {
    w.everything(fs[k][0], fs[k][1], fs[k][2], fs[k][3], fs[k][4]);
    evaluated(w, 1, k == 1 ? 0 : 4, "x0", k & 1 ? "0" : "u0");
    w.guess("C19.zero");
    good(w);
    w.remember();
  }
  if (W::ph < 6) { w.sample(sa_real("+ts", 0, 0)); NH.pts[0] = "0"; evaluated(w, 1, 0, "0", "u0"); }
  w.destroy();
}
// numbers of all magnitudes pass through as they are
ENTRY(e_magnitudes) {
  W w;
  w.create();
  w.everything();
  const char *n[] = {"#a", "#c", "#f", "#b", "#k", "#h", "#d", "#m"};
  sa_small(1e-40);
  for (int k = 0; k < 8; k++) {
    if (k == 1) w.params(true, true);
    if (k == 3) { w.xb(n[0], n[3]); w.ubnd(n[1], n[4]); }
    if (k == 5) w.params(true, false);
    NH.pts[0] = n[k];
    w.solverAnswers(n[(k + 2) % 8], n[(k + 1) % 8]);
    evaluated(w, 1, 4, n[(k + 3) % 8], n[(k + 4) % 8]);
    w.guess("C19.magnitudes");
    w.bounds("C16.bounds", true);
    good(w);
    w.remember();
  }
  sa_small(1);
  w.destroy();
}
// evaluating once leaves no trace on evaluating again, whatever comes in between
ENTRY(e_again) {
  W w;
  w.create();
  w.everything();
  w.solverAnswers("Xa", "Oa");
  NH.fixedSlack = true; // the steps of the slack must not vanish at zero
  evaluated(w, 2, 2);
  w.destroy();
}
// C30 C12: nothing but an objective and a model
ENTRY(e_bare) {
  Also as0("C30.bare");
  W w;
  w.create();
  w.objective("o");
  w.model("f");
  w.solverAnswers("Xa", "Oa");
  evaluated(w, 1, 0);
  sa_ieq(NH.calls[3] + NH.calls[4] + NH.calls[5], 0, "C30.invoked", 0, 0);
  auto r = w.c->getLastResult();
  w.answer(r, "C17.result");
  w.sequence(w.c->getOptimalSequence(), "C30.outputs");
  sa_true(r.is_feasible, "C30.feasible", 0, 0);
  w.sample(sa_real("+ts", 0, 0));
  evaluated(w, 1, 4, "x1", "u1");
  w.destroy();
}
ENTRY(e_partial) {
  Also as0("C30.partial");
  Also as1("C20.inforce");
  for (int k = 0; k < 3; k++) {
    W w;
    w.create();
    w.objective("o");
    if (k == 0) { if (W::ni) w.ineq("i", 0.25f); }
    if (k == 1) { if (W::ne) w.eq("e", 0.5f); }
    if (k == 2) w.output("g");
    w.solverAnswers("Xa", "Oa");
    for (int &c : NH.calls) c = 0;
    evaluated(w, 1, 0);
    w.tolerances("C20.inforce");
    sa_ieq(NH.calls[2], 0, "C30.invoked", k, 0);
    if (k != 0) sa_ieq(NH.calls[4], 0, "C30.invoked", k, 1);
    if (k != 1) sa_ieq(NH.calls[5], 0, "C30.invoked", k, 2);
    if (k != 2) sa_ieq(NH.calls[3], 0, "C30.invoked", k, 3);
    w.destroy();
  }
}
static bool feasibleAt(W &w, const double *z) {
  typename W::T t;
  w.denote(z, t);
  bool ok = true;
  if (w.fi) for (int i = 0; i < W::ni; i++) ok = ok && !(W::con(w.fi, i, t, true) > (double)w.ti);
  if (w.fe) for (int i = 0; i < W::ne; i++) { double v = W::con(w.fe, i, t, false); ok = ok && !(v > (double)w.te) && !(v < -(double)w.te); }
  return ok;
}
// C20 C30: setting again replaces, at any time
ENTRY(e_replace) {
  Also as0("C20.replaced");
  Also as1("C30.latest");
  W w;
  w.create();
  w.everything("oo", "of", "og", "oi", "oe");
  w.solverAnswers("Xa", "Oa");
  evaluated(w, 1, 4);
  if (W::ne) w.eq("e", 0.125f);
  if (W::ni) w.ineq("i", 0.75f);
  w.model("f", 0.375f);
  w.output("g");
  w.objective("o");
  evaluated(w, 1, 4);
  w.tolerances("C20.replaced");
  w.model("f2", 0.5f);
  if (W::ni) { w.ineq("i1", 0.25f); w.ineq("i2", 0.0625f); }
  if (W::ne) { w.eq("e1", 0.75f); w.eq("e2", 0.5f); }
  w.objective("o1"); w.objective("o2");
  evaluated(w, 1, 4);
  w.tolerances("C20.replaced");
  {
    auto r = w.c->getLastResult();
    sa_ieq(r.is_feasible, feasibleAt(w, NL.x), "C20.replaced", -1, 1);
    w.sequence(w.c->getOptimalSequence(), "C20.replaced");
  }
  w.destroy();
}
// C20: any tolerance the solver accepts is the one in force
ENTRY(e_tolerances) {
  Also as0("C17.result");
  W w;
  w.create();
  w.everything();
  w.solverAnswers("Xa", "Oa");
  const float v[] = {0.f, 1e-30f, 3e5f, 1e-4f};
  for (float t : v) {
    if (W::ni) w.ineq("i", t);
    if (W::ne) w.eq("e", t);
    w.model("f", t);
    sa_small(1e-40);
    evaluated(w, 0, 0);
    w.tolerances("C20.inforce");
    auto r = w.c->getLastResult();
    sa_ieq(r.is_feasible, feasibleAt(w, NL.x), "C20.inforce", -1, 1);
  }
  sa_small(1);
  w.destroy();
}
// C20: what a setter reports
ENTRY(e_setters) {
  Also as0("C20.inforce");
  W w;
  w.create();
  const char *R = "C20.reports";
  sa_ieq(w.objective("o"), 1, R, 0, 0);
  sa_ieq(w.model("f"), 1, R, 1, 0);
  sa_ieq(w.output("g"), 1, R, 2, 0);
  if (W::ni) sa_ieq(w.ineq("i", 0.25f), 1, R, 3, 0);
  if (W::ne) sa_ieq(w.eq("e", 0.5f), W::ne + W::NM <= NV, R, 4, 0);
  w.solverAnswers("Xa", "Oa");
  evaluated(w, 1, 4);
  w.tolerances("C20.inforce");
  // tolerances the solver refuses
  if (W::ni) sa_ieq(w.ineq("i9", -1.0f), 0, R, 5, 0);
  if (W::ne) sa_ieq(w.eq("e9", -1.0f), 0, R, 6, 0);
  sa_ieq(w.model("f9", -1.0f), 0, R, 7, 0);
  evaluated(w, 1, 4);
  {
    auto r = w.c->getLastResult();
    sa_ieq(r.is_feasible, feasibleAt(w, NL.x), "C20.refused", -1, 1);
    w.sequence(w.c->getOptimalSequence(), "C20.refused");
  }
  w.tolerances("C20.refused");
  bool thrown = false;
  try { w.c->setOutputBounds(W::symM<W::ny, ph>("a"), W::symM<W::ny, ph>("b")); } catch (const std::exception &) { thrown = true; }
  sa_true(thrown, R, 8, 0);
  thrown = false;
  try { w.c->setOutputBounds(W::symV<W::ny>("a"), W::symV<W::ny>("b"), HorizonSlice::all()); } catch (const std::exception &) { thrown = true; }
  sa_true(thrown, R, 9, 0);
  w.bounds("C20.refused");
  w.destroy();
}
// C16
ENTRY(e_bounds) {
  W w;
  w.create();
  const char *R = "C16.bounds";
  w.bounds("C16.initial");
  sa_ieq(w.xb("xl", "xh"), 1, "C20.reports", 10, 0);
  w.bounds(R);
  sa_ieq(w.ubnd("ul", "uh"), 1, "C20.reports", 11, 0);
  w.bounds(R);
  int a = ph > 1 ? 1 : 0, b = ph > 2 ? ph - 1 : ph;
  w.xbV("xl2", "xh2", HorizonSlice(a, b));
  w.bounds(R);
  w.ubV("ul2", "uh2", HorizonSlice(ch - 1, ch));
  w.bounds(R);
  w.params(false, false);
  w.bounds(R);
  w.xbV("xl3", "xh3", HorizonSlice::all());
  w.bounds(R);
  w.ubV("ul3", "uh3", HorizonSlice::all());
  w.bounds(R);
  w.params(true, true);
  w.bounds(R);
  w.everything();
  w.bounds(R);
  w.solverAnswers("Xa", "Oa");
  w.solve("x0", "u0");
  w.bounds(R, true);
  w.xbV("xl4", "xh4", HorizonSlice(ph - 1, ph));
  w.ubV("ul4", "uh4", HorizonSlice(0, 1));
  w.xbV("xl5", "xh5", HorizonSlice(0, 1));
  w.bounds(R);
  w.sample(sa_real("+ts", 0, 0));
  w.solve("x0", "u0");
  w.bounds(R, true);
  w.destroy();
}
// extreme limits reach the solver as they are
ENTRY(e_extreme) {
  W w;
  w.create();
  w.everything();
  const char *R = "C16.bounds";
  const double lo[] = {-INF, -1e30, -1e25, -1e20, -1e-9, 0, 1e-300, 7, 1e30, -INF, 2}, hi[] = {INF, 1e30, 1e18, INF, 1e-9, 0, 1e-300, 7.000001, INF, -1e300, 1};
  const int n = sizeof(lo) / sizeof(*lo);
  sa_small(1e-310);
  for (int k = 0; k < n; k++) {
    typename W::template Vx<W::nx> xl = W::symV<W::nx>("t"), xh = xl;
    typename W::template Vx<W::nu> ul = W::symV<W::nu>("t"), uh = ul;
    int at = k % ph, atu = k % ch;
    for (int i = 0; i < W::nx; i++) { xl(i) = w.lb[W::zx(at + 1, i)] = lo[(k + i) % n]; xh(i) = w.ub[W::zx(at + 1, i)] = hi[(k + i) % n]; }
    for (int i = 0; i < W::nu; i++) { ul(i) = w.lb[W::zu(atu, i)] = lo[(k + 2 + i) % n]; uh(i) = w.ub[W::zu(atu, i)] = hi[(k + 2 + i) % n]; }
    sa_ieq(w.c->setStateBounds(xl, xh, HorizonSlice(at, at + 1)), 1, "C20.reports", k, 60);
    sa_ieq(w.c->setInputBounds(ul, uh, HorizonSlice(atu, atu + 1)), 1, "C20.reports", k, 61);
    w.bounds(R);
    if (k == 3) { w.solverAnswers("Xa", "Oa"); w.solve("x0", "u0"); w.bounds(R, true); }
  }
  typename W::template Mx<W::nx, ph> a = W::symM<W::nx, ph>("t"), b = a;
  typename W::template Mx<W::nu, ch> c = W::symM<W::nu, ch>("t"), d = c;
  for (int k = 0; k < ph; k++) for (int i = 0; i < W::nx; i++) { int q = (5 * k + 3 * i) % n; a(i, k) = w.lb[W::zx(k + 1, i)] = lo[q]; b(i, k) = w.ub[W::zx(k + 1, i)] = hi[q]; }
  for (int k = 0; k < ch; k++) for (int i = 0; i < W::nu; i++) { int q = (5 * k + 3 * i + 1) % n; c(i, k) = w.lb[W::zu(k, i)] = lo[q]; d(i, k) = w.ub[W::zu(k, i)] = hi[q]; }
  sa_ieq(w.c->setStateBounds(a, b), 1, "C20.reports", n, 60);
  sa_ieq(w.c->setInputBounds(c, d), 1, "C20.reports", n, 61);
  w.bounds(R);
  sa_small(1);
  w.destroy();
}
// the solver's library runs out of memory while a function is registered
ENTRY(e_refusal) {
  Also as0("C20.refused");
  W w;
  w.create();
  w.everything();
  const char *R = "C20.reports";
  bool r = true;
  NL.refuse = 1; r = w.objective("o3"); sa_ieq(r, 0, R, 0, 30); w.fo = "o";
  w.objective("o");
  NL.refuse = 1; r = w.model("f3", 0.125f); sa_ieq(r, 0, R, 1, 30);
  if (W::ne) { NL.refuse = 1; r = w.eq("e3", 0.125f); sa_ieq(r, 0, R, 2, 30); }
  if (W::ni) { NL.refuse = 1; r = w.ineq("i3", 0.125f); sa_ieq(r, 0, R, 3, 30); }
  NL.refuse = 0;
  w.solverAnswers("Xa", "Oa");
  evaluated(w, 1, 4);
  w.tolerances("C20.refused");
  good(w, "C20.refused");
  r = w.model("f4", 0.0625f); sa_ieq(r, 1, R, 4, 30);
  evaluated(w, 1, 4);
  w.tolerances("C20.refused");
  w.destroy();
}
// C22
template <class F> static void slices(W &w, int all, F f) {
  const int v[] = {INT_MIN, -2, -1, 0, 1, 2, all - 1, all, all + 1, INT_MAX};
  int used = 0;
  char n[4] = {'v', 'a', 0, 0};
  for (int ia = 0; ia < 10; ia++)
    for (int ib = 0; ib < 10; ib++) {
      int a = v[ia], b = v[ib];
      bool dup = false;
      for (int p = 0; p < ia; p++) dup |= v[p] == a;
      for (int p = 0; p < ib; p++) dup |= v[p] == b;
      if (dup) continue;
      bool ok = (a == -1 && b == -1) || (a >= 0 && a < b && b <= all);
      n[1] = (char)('a' + used % 26); n[2] = (char)('a' + used / 26); used++;
      W before = w;
      { Also as("C20.reports"); sa_ieq(f(w, HorizonSlice(a, b), n), ok, "C22.accepted", a, b); }
      if (!ok) { auto c = w.c; w = before; w.c = c; }
      w.bounds(ok ? "C22.effect" : "C22.rejected");
    }
}
ENTRY(e_slicing) {
  W w;
  w.create();
  w.xb("xl", "xh");
  w.ubnd("ul", "uh");
  slices(w, ph, [](W &w, HorizonSlice s, const char *n) { return w.xbV(n, "hi", s); });
  slices(w, ch, [](W &w, HorizonSlice s, const char *n) { return w.ubV(n, "hi", s); });
  w.destroy();
}
// C17 C09: every outcome with a solution
template <class V> static void good(V &w, const char *R) {
  auto r = w.c->getLastResult();
  w.answer(r, R);
  w.sequence(w.c->getOptimalSequence(), "C17.sequence");
}
static int statusOf(int ret) { return ret < 0 ? mpc::ERROR : ret == NLOPT_MAXEVAL_REACHED || ret == NLOPT_MAXTIME_REACHED ? mpc::MAX_ITERATION : mpc::SUCCESS; }
static bool cFeasible() {
  bool ok = true;
  for (int i = 0; i < W::ni; i++) ok = ok && !(NH.cval[i] > 0.25);
  for (int i = 0; i < W::ne; i++) ok = ok && !(NH.hval[i] > 0.5) && !(NH.hval[i] < -0.5);
  return ok;
}
ENTRY(e_results) {
  W w;
  w.create();
  w.everything();
  sa_ieq(mpc::SUCCESS, 0, "C09.codes", 0, 0); sa_ieq(mpc::MAX_ITERATION, 1, "C09.codes", 1, 0); sa_ieq(mpc::INFEASIBLE, 2, "C09.codes", 2, 0); sa_ieq(mpc::ERROR, 3, "C09.codes", 3, 0); sa_ieq(mpc::UNKNOWN, 4, "C09.codes", 4, 0); // as documented
  const nlopt_result rets[] = {NLOPT_SUCCESS, NLOPT_STOPVAL_REACHED, NLOPT_FTOL_REACHED, NLOPT_XTOL_REACHED, NLOPT_MAXEVAL_REACHED, NLOPT_MAXTIME_REACHED};
  const char *xs[] = {"Xa", "Xb"}, *x0s[] = {"x0", "x1", "x2"};
  int k = 0;
  for (auto ret : rets) {
    w.solverAnswers(xs[k & 1], xs[k & 1], ret);
    auto r = w.solve(x0s[k % 3], "u0");
    w.answer(r, "C17.result");
    sa_ieq(r.status, statusOf(ret), "C09.status", ret, 0);
    sa_ieq(r.solver_status, ret, "C09.code", ret, 0);
    good(w);
    k++;
  }
  w.sample(sa_real("+ts", 0, 0));
  w.params(true, false);
  w.solverAnswers("Xc", "Oc");
  w.solve("x0", "u1");
  good(w);
  w.destroy();
}
// many solves of one controller: nothing wears out, accumulates or is skipped
ENTRY(e_many) {
  W w;
  w.create();
  w.everything();
  w.params(false, true);
  const char *xs[] = {"Xa", "Xb", "Xc"}, *in[] = {"x0", "x1", "x2", "x3"};
  for (int k = 0; k < 24; k++) {
    if (k == 5) w.xb("xl", "xh");
    if (k == 9) w.params(true, false);
    if (k == 11) w.ubnd("ul", "uh");
    if (k == 14) { w.objective("o2"); w.model("f2"); }
    if (k == 17) w.output("g2");
    if (k == 19) w.params(false, false);
    w.solverAnswers(xs[k % 3], xs[k % 3], k == 7 ? NLOPT_MAXEVAL_REACHED : NLOPT_SUCCESS);
    if (k % 6 == 5 || k == 23) evaluated(w, 1, 4, in[(k + k / 7) % 4]); else w.solve(in[(k + k / 7) % 4], "u0");
    w.guess("C19.many");
    w.bounds("C16.many", true);
    good(w, "C17.many");
    w.remember();
  }
  w.destroy();
}
ENTRY(e_feasible) {
  W w;
  w.create();
  w.everything();
  NH.fixed = true;
  const double cs[] = {-3, 0.25, 0.2500001, INF}, hs[] = {-0.5, 0, 0.5, 0.5000001, -0.5000001, -INF};
  w.solverAnswers("Xa", "Oa");
  int k = 0;
  for (double c : cs)
    for (double h : hs)
      for (int at = 0; at < (W::ni > W::ne ? W::ni : W::ne); at++) {
        for (int i = 0; i < W::ni; i++) NH.cval[i] = i == at % (W::ni ? W::ni : 1) ? c : -1;
        for (int i = 0; i < W::ne; i++) NH.hval[i] = i == at % (W::ne ? W::ne : 1) ? h : 0.25;
        auto r = w.solve("x0", "u0");
        sa_ieq(r.is_feasible, cFeasible(), "C17.feasible", k++, at);
      }
  for (int i = 0; i < W::ni; i++) NH.cval[i] = sa_real("cv", i, 0);
  for (int i = 0; i < W::ne; i++) NH.hval[i] = sa_real("hv", i, 0);
  auto r = w.solve("x0", "u0");
  sa_ieq(r.is_feasible, cFeasible(), "C17.feasible", k++, 0);
  NH.fixed = false;
  w.destroy();
}
// the constraints are judged at the solver's answer, from the measured state
ENTRY(e_judged) {
  W w;
  w.create();
  w.everything();
  w.solverAnswers("Xa", "Oa");
  auto r = w.solve("x0", "u0");
  sa_ieq(r.is_feasible, feasibleAt(w, NL.x), "C17.feasible", -1, 0);
  w.destroy();
}
// C18 C09: failures
static void failed(W &w, const double *prev, int k) {
  auto r = w.c->getLastResult();
  W::cmdIs(r, prev, "C18.cmd");
  sa_true(r.cost == INF, "C18.cost", k, 0);
  sa_ieq(r.status, mpc::ERROR, "C18.status", k, 0);
  sa_ieq(r.is_feasible, 0, "C18.feasible", k, 0);
  W::zero(w.c->getOptimalSequence(), "C18.sequence");
}
static void failing(bool warm) {
  Also as0("C18.contained");
  const nlopt_result rets[] = {NLOPT_FAILURE, NLOPT_INVALID_ARGS, NLOPT_OUT_OF_MEMORY, NLOPT_ROUNDOFF_LIMITED, NLOPT_FORCED_STOP};
  double zero[W::nu] = {};
  for (auto ret : rets) {
    W w;
    w.create();
    w.everything();
    w.params(warm, true);
    w.solverAnswers("Xa", "Oa", ret);
    auto r = w.solve("x0", "u0");
    W::cmdIs(r, zero, "C18.cmd");
    sa_ieq(r.status, mpc::ERROR, "C09.status", ret, 0);
    failed(w, zero, ret);
    w.solverAnswers("Xb", "Ob"); // as if the failed one had not happened
    w.solve("x1", "u1");
    w.guess("C18.next");
    w.remember();
    good(w, "C18.next");
    double prev[W::nu];
    for (int i = 0; i < W::nu; i++) prev[i] = NL.x[W::zu(0, i)];
    w.solverAnswers("Xc", "Oc", ret);
    r = w.solve("x2", "u2");
    W::cmdIs(r, prev, "C18.cmd");
    failed(w, prev, ret);
    w.solve("x3", "u3");
    failed(w, prev, ret);
    w.guess("C18.next");
    w.solverAnswers("Xd", "Od");
    w.solve("x4", "u4");
    w.guess("C18.next");
    w.remember();
    good(w, "C18.next");
    evaluated(w, 1, 4, "x0", "u0");
    w.bounds("C18.next", true);
    w.tolerances("C18.next");
    w.destroy();
  }
}
ENTRY(e_fail) { failing(false); }
ENTRY(e_failwarm) { failing(true); }
// the user's functions throw
ENTRY(e_throw) {
  Also as0("C18.contained");
  double prev[W::nu];
  for (int in = 1; in <= 5; in++) {
    if (in == 4 && !W::ni) continue;
    if (in == 5 && !W::ne) continue;
    for (int how = 0; how < 6; how++) {
      W w;
      w.create();
      w.everything();
      w.solverAnswers("Xa", "Oa");
      w.solve("x1", "u1");
      good(w);
      for (int i = 0; i < W::nu; i++) prev[i] = NL.x[W::zu(0, i)];
      w.solverAnswers("Xb", "Ob");
      NH.fail_in = in; NH.fail_how = how; NH.fail_after = how == 0 ? 0 : 1;
      NL.evals = 2; NL.point = pts; NL.order = 4;
      auto r = w.solve("x2", "u2");
      NH.fail_in = 0;
      W::cmdIs(r, prev, "C18.cmd");
      failed(w, prev, in * 10 + how);
      w.solverAnswers("Xc", "Oc");
      evaluated(w, 1, 4);
      good(w, "C18.next");
      sa_true(w.c->getLastResult().solver_status_msg.empty(), "C18.next", in, 50 + how); // the message of the failure is gone
      w.destroy();
    }
  }
}
// the functions that judge the answer throw, after the solver has returned
ENTRY(e_throwlate) {
  Also as0("C18.contained");
  double zero[W::nu] = {};
  for (int how = 0; how < 6; how += 5)
  for (int in = 3; in <= 5; in++) {
    if (in == 4 && !W::ni) continue;
    if (in == 5 && !W::ne) continue;
    W w;
    w.create();
    w.everything();
    w.solverAnswers("Xb", "Ob");
    NH.fail_in = in; NH.fail_how = how; NH.fail_after = 0;
    if (in == 3 && !W::ni) NH.fail_in = 0;
    NH.fixed = true; // satisfied up to the one that throws
    for (int i = 0; i < W::ni; i++) NH.cval[i] = -1;
    for (int i = 0; i < W::ne; i++) NH.hval[i] = 0;
    w.solve("x2", "u2");
    if (NH.fail_in) failed(w, zero, in);
    NH.fail_in = 0;
    NH.fixed = false;
    w.solverAnswers("Xc", "Oc");
    w.solve("x0", "u0");
    w.guess("C18.next");
    good(w, "C18.next");
    w.destroy();
  }
  // after a solve that worked, warm started
  for (int in = 4; in <= 5; in++) {
    if (in == 4 && !W::ni) continue;
    if (in == 5 && !W::ne) continue;
    W w;
    w.create();
    w.everything();
    w.params(true, true);
    w.solverAnswers("Xa", "Oa");
    w.solve("x1", "u1");
    w.remember();
    double prev[W::nu];
    for (int i = 0; i < W::nu; i++) prev[i] = NL.x[W::zu(0, i)];
    w.solverAnswers("Xb", "Ob");
    NH.fail_in = in; NH.fail_how = 0; NH.fail_after = 0;
    NH.fixed = true;
    for (int i = 0; i < W::ni; i++) NH.cval[i] = -1;
    for (int i = 0; i < W::ne; i++) NH.hval[i] = 0;
    w.solve("x2", "u2");
    failed(w, prev, in);
    NH.fail_in = 0;
    NH.fixed = false;
    w.solverAnswers("Xc", "Oc");
    w.solve("x0", "u0");
    w.guess("C18.next");
    good(w, "C18.next");
    w.destroy();
  }
}
// C19
ENTRY(e_guess) {
  for (int bounded = 0; bounded < 2; bounded++) {
    W w;
    w.create();
    w.everything();
    if (bounded) { w.xb("xl", "xh"); w.ubnd("ul", "uh"); }
    const char *xs[] = {"Xa", "Xb", "Xc", "Xd", "Xe", "Xf", "Xg"}, *is[] = {"x0", "x1", "x2", "x3", "x4", "x5", "x6"}, *us[] = {"u0", "u1", "u2", "u3", "u4", "u5", "u6"};
    for (int k = 0; k < 7; k++) {
      if (k == 2) w.params(true, true);
      if (k == 4) w.params(false, false);
      if (k == 5) w.params(true, false);
      w.solverAnswers(xs[k], "Oa");
      w.solve(is[k], us[k]);
      w.guess(w.warm ? "C19.warm" : "C19.cold");
      w.remember();
    }
    w.destroy();
  }
  // the first solve has nothing to start from
  W w;
  w.create();
  w.everything();
  w.params(true, false);
  w.solverAnswers("Xa", "Oa");
  w.solve("x0", "u0");
  w.guess("C19.cold");
  w.remember();
  w.solve("x1", "u1");
  w.guess("C19.warm");
  w.destroy();
}
// C21
static void physical(W &w) {
  w.solverAnswers("Xa", "Oa");
  evaluated(w, 1, 0);
  w.bounds("C21.bounds");
  w.guess("C21.guess");
  w.remember();
  good(w, "C21.result");
  {
    auto r = w.c->getLastResult();
    sa_ieq(r.is_feasible, feasibleAt(w, NL.x), "C21.feasible", -1, 1);
  }
  w.params(true, false);
  w.solverAnswers("Xb", "Ob");
  evaluated(w, 1, 4, "x1", "u1");
  w.guess("C21.guess");
  w.remember();
  good(w, "C21.result");
  w.params(false, true);
}
ENTRY(e_scale) {
  Also as0("C21.physical");
  W w;
  w.create();
  w.scaleX("+sx");
  w.scaleU("+su");
  w.everything();
  w.xb("xl", "xh");
  w.ubnd("ul", "uh");
  physical(w);
  int a = ph > 1 ? 1 : 0, b = ph > 2 ? ph - 1 : ph;
  w.xbV("xl2", "xh2", HorizonSlice(a, b));
  w.bounds("C21.bounds");
  w.ubV("ul2", "uh2", HorizonSlice(ch - 1, ch));
  w.bounds("C21.bounds");
  w.xbV("xl3", "xh3", HorizonSlice::all());
  w.ubV("ul3", "uh3", HorizonSlice::all());
  w.bounds("C21.bounds");
  w.xbV("xl4", "xh4", HorizonSlice(-1, 1));
  w.ubV("ul4", "uh4", HorizonSlice(0, ch + 1));
  w.bounds("C21.bounds");
  w.destroy();
}
ENTRY(e_scalelate) {
  Also as0("C21.physical");
  W w;
  w.create();
  w.everything();
  w.xb("xl", "xh");
  w.ubnd("ul", "uh");
  w.solverAnswers("X0", "O0");
  w.solve("x0", "u0");
  w.remember();
  w.sample(sa_real("+ts", 0, 0));
  w.scaleU("+su");
  w.bounds("C21.bounds");
  w.scaleX("+sx");
  w.bounds("C21.bounds");
  physical(w);
  // another scaling; the previous optimum is still the same physical trajectory
  w.params(true, true);
  w.scaleX("+ty"); w.scaleU("+tv");
  w.bounds("C21.bounds");
  w.solverAnswers("Xc", "Oc");
  w.solve("x3", "u3");
  w.guess("C21.guess");
  good(w, "C21.result");
  w.destroy();
}
ENTRY(e_scaleneg) {
  Also as0("C21.physical");
  W w;
  w.create();
  w.everything();
  w.xb("xl", "xh");
  w.ubnd("ul", "uh");
  typename W::template Vx<W::nx> vx; typename W::template Vx<W::nu> vu;
  if (vx.rows() != W::nx) vx.resize(W::nx);
  if (vu.rows() != W::nu) vu.resize(W::nu);
  for (int i = 0; i < W::nx; i++) w.sx[i] = vx(i) = i & 1 ? 4 : -2;
  for (int i = 0; i < W::nu; i++) w.su[i] = vu(i) = i & 1 ? 0.5 : -8;
  w.c->setStateScale(vx);
  w.c->setInputScale(vu);
  w.bounds("C21.bounds");
  w.solverAnswers("Xa", "Oa");
  evaluated(w, 1, 4);
  w.guess("C21.guess");
  good(w, "C21.result");
  w.destroy();
}
// C06
static mpc::NLParameters symP(const char *a, bool hard, bool warm) {
  mpc::NLParameters p;
  p.relative_ftol = sa_real(a, 0, 0); p.relative_xtol = sa_real(a, 1, 0); p.absolute_ftol = sa_real(a, 2, 0); p.absolute_xtol = sa_real(a, 3, 0);
  p.time_limit = sa_real(a, 4, 0);
  p.maximum_iteration = sa_int(a);
  p.hard_constraints = hard;
  p.enable_warm_start = warm;
  return p;
}
static void inForce(const mpc::NLParameters &p, int k) {
  const char *R = "C06.nonlinear";
  const nlopt_opt_s &at = NL.at;
  sa_eq(&at.ftol_rel, p.relative_ftol, R, k, 0); sa_eq(&at.xtol_rel, p.relative_xtol, R, k, 1); sa_eq(&at.ftol_abs, p.absolute_ftol, R, k, 2);
  for (int j = 0; j < NV; j++) { sa_eq(&at.xtol_abs[j], p.absolute_xtol, R, k, 100 + j); sa_eq(&at.x_weights[j], 1, R, k, 200 + j); }
  sa_eq(&at.maxtime, p.time_limit > 0 ? p.time_limit : 0, R, k, 3);
  sa_ieq(at.maxeval, p.maximum_iteration, R, k, 4);
  sa_eq(&at.lb[NV - 1], p.hard_constraints ? 0 : -INF, R, k, 5);
  sa_eq(&at.ub[NV - 1], p.hard_constraints ? 0 : INF, R, k, 6);
  sa_eq(&at.stopval, -HUGE_VAL, R, k, 7);
}
ENTRY(e_params) {
  Also as0("C06.nonlinear");
  W w;
  w.create();
  w.everything();
  w.solverAnswers("Xa", "Oa");
  w.solve("x0", "u0");
  { mpc::NLParameters d; inForce(d, 0); }
  int n = 1;
  const char *a[] = {"p", "+q", "r", "+s"};
  for (int k = 0; k < 4; k++) {
    auto p = symP(a[k], k & 1, k & 2), q = p;
    w.c->setOptimizerParameters(p);
    p = symP("junk", !(k & 1), !(k & 2));
    if (k == 2) { w.xb("xl", "xh"); w.objective("o2"); }
    w.solve("x0", "u0");
    inForce(q, n++);
    if (k == 1) { w.solve("x0", "u0"); inForce(q, n++); }
  }
  // extreme values
  for (int k = 0; k < 3; k++) {
    mpc::NLParameters p;
    p.relative_ftol = k ? 1e-15 : 1e5; p.relative_xtol = k ? 1e-16 : 1e6; p.absolute_ftol = k ? 1e-14 : 1e7; p.absolute_xtol = k ? 1e-13 : 1e8;
    p.time_limit = k ? 1e-6 : 1e9;
    p.maximum_iteration = k == 0 ? 2147483647 : k == 1 ? 1 : 70000;
    p.hard_constraints = k & 1;
    w.c->setOptimizerParameters(p);
    w.solve("x0", "u0");
    sa_small(1e-20);
    inForce(p, n++);
    sa_small(1);
  }
  mpc::NLParameters lim, none;
  lim.time_limit = 2.5; lim.hard_constraints = false; lim.enable_warm_start = true;
  w.c->setOptimizerParameters(lim); w.solve("x0", "u0"); inForce(lim, n++);
  w.c->setOptimizerParameters(none); w.solve("x0", "u0"); inForce(none, n++);
  none.time_limit = -1;
  w.c->setOptimizerParameters(lim); w.c->setOptimizerParameters(none); w.solve("x0", "u0"); inForce(none, n++);
  // the parameters of the other controller are refused, nothing changes
  mpc::LParameters other;
  other.time_limit = 77; other.maximum_iteration = 3;
  w.c->setOptimizerParameters(other); w.solve("x0", "u0"); inForce(none, n++);
  w.destroy();
}
// C10 C24
ENTRY(e_life) {
  { W w; w.create(); w.destroy(); }
  { W w; w.create(); w.everything(); w.destroy(); }
  { W w; w.create(); w.solve("x0", "u0"); double zero[W::nu] = {}; failed(w, zero, 0); w.destroy(); } // nothing set: the solver refuses
  {
    W w; w.create();
    W::zero(w.c->getOptimalSequence(), "C24.initial");
    auto r = w.c->getLastResult();
    double zero[W::nu] = {};
    W::cmdIs(r, zero, "C24.initial");
    sa_true(!r.is_feasible && r.status == mpc::UNKNOWN, "C24.initial", 0, 0);
    sa_init(&r.cost, 8, 8, "C24.initial"); sa_init(&r.solver_status, sizeof r.solver_status, 4, "C24.initial");
    sa_ieq(w.c->getExecutionStats().numberOfSolutions, 0, "C26.count", 0, 0);
    w.destroy();
  }
  sa_ieq(NL.live, 0, "C10.solver", 0, 0);
}
// C25
ENTRY(e_two) {
  Also as0("C25.two");
  W a, b;
  a.create();
  b.create();
  a.everything("ao", "af", "ag", "ai", "ae");
  b.everything("bo", "bf", "bg", "bi", "be");
  a.xb("axl", "axh");
  a.bounds("C25.bounds");
  b.ubnd("bul", "buh");
  b.params(true, false);
  b.bounds("C25.bounds");
  a.params(true, true);
  b.sample(sa_real("+ts", 0, 0));
  a.solverAnswers("Xa", "Oa");
  evaluated(a, 1, 4, "x0", "u0");
  a.bounds("C25.bounds", true);
  a.remember();
  b.scaleX("+sx");
  b.solverAnswers("Xb", "Ob");
  evaluated(b, 1, 4, "x1", "u1");
  b.bounds("C25.bounds", true);
  b.guess("C25.guess");
  b.remember();
  b.answer(b.c->getLastResult(), "C25.result");
  b.sequence(b.c->getOptimalSequence(), "C25.result");
  a.solverAnswers("Xa", "Oa");
  a.answer(a.c->getLastResult(), "C25.result");
  a.sequence(a.c->getOptimalSequence(), "C25.result");
  sa_ieq(a.c->getExecutionStats().numberOfSolutions, 1, "C25.stats", 0, 0);
  a.c->resetStats();
  sa_ieq(b.c->getExecutionStats().numberOfSolutions, 1, "C25.stats", 1, 0);
  b.destroy();
  evaluated(a, 1, 4, "x2", "u2");
  a.guess("C25.guess");
  a.answer(a.c->getLastResult(), "C25.result");
  a.destroy();
}
// parameters of the one are not those of the other
ENTRY(e_two_params) {
  Also as0("C25.two");
  W a, b;
  a.create();
  b.create();
  a.everything("ao", "af", "ag", "ai", "ae");
  b.everything("bo", "bf", "bg", "bi", "be");
  for (int k = 0; k < 2; k++) {
    W &p = k ? b : a, &q = k ? a : b;
    p.params(true, false);
    q.params(false, true);
    p.solverAnswers("Xa", "Oa");
    p.solve("x0", "u0");
    p.guess("C25.guess"); p.bounds("C25.bounds", true);
    p.remember();
    q.solverAnswers("Xb", "Ob");
    q.solve("x1", "u1");
    q.guess("C25.guess"); q.bounds("C25.bounds", true);
    q.remember();
    p.solverAnswers("Xc", "Oc");
    p.solve("x2", "u2");
    p.guess("C25.guess"); p.bounds("C25.bounds", true);
    p.remember();
    q.solve("x3", "u3");
    q.guess("C25.guess");
    q.remember();
  }
  auto p = symP("pa", false, true), q = symP("+qb", true, false);
  a.c->setOptimizerParameters(p);
  b.c->setOptimizerParameters(q);
  a.solve("x0", "u0");
  { Also as("C25.params"); inForce(p, 0); }
  b.solve("x0", "u0");
  { Also as("C25.params"); inForce(q, 1); }
  a.solve("x0", "u0");
  { Also as("C25.params"); inForce(p, 2); }
  b.destroy();
  a.destroy();
}
// controllers of different sizes in one process
template <class A, class B> static void sized() {
  Also as0("C25.two");
  A a;
  B b;
  a.create();
  a.everything("ao", "af", "ag", "ai", "ae");
  a.solverAnswers("Xa", "Oa");
  evaluated(a, 1, 0);
  a.remember();
  good(a);
  b.create();
  b.everything("bo", "bf", "bg", "bi", "be");
  b.xb("xl", "xh");
  b.params(true, false);
  b.bounds("C25.bounds");
  b.solverAnswers("Xb", "Ob");
  evaluated(b, 1, 0);
  b.guess("C25.guess");
  b.remember();
  good(b);
  a.params(true, true);
  a.sample(sa_real("+ts", 0, 0));
  a.solverAnswers("Xc", "Oc");
  evaluated(a, 1, 0, "x1", "u1");
  a.guess("C25.guess");
  a.bounds("C25.bounds", true);
  good(a);
  b.solverAnswers("Xd", "Od");
  evaluated(b, 1, 0, "x2", "u2");
  b.guess("C25.guess");
  good(b);
  a.destroy();
  b.solve("x3", "u3");
  good(b);
  b.destroy();
}
ENTRY(e_two_sizes) {
  using S = NW<W::dynamic, W::nx == 2 ? 1 : 2, W::nu == 1 ? 2 : 1, 1, W::ph == 2 ? 3 : 2, 2, 2, 1>;
  sized<W, S>();
  sized<S, W>();
}
// C26
// C32: nothing is shared with the caller
static int junk = 0;
template <class M> static void spoil(M &m) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) m(i, j) = sa_real("junk", i + 50 * j, junk++ % 40); }
template <class F, class... M> static bool lent(F f, M... m) { bool r = f(m...); (spoil(m), ...); return r; } // the caller's variables, reused at once
static void reads(W &w) {
  auto r = w.c->getLastResult(); auto s = w.c->getOptimalSequence(); auto st = w.c->getExecutionStats();
  r.cost = 0; r.status = mpc::ERROR; r.is_feasible = false; r.solver_status = 31; spoil(r.cmd);
  spoil(s.state); spoil(s.input); spoil(s.output);
  st.numberOfSolutions = 0; st.solutionsStates.clear();
}
struct Fn { // a function object whose owner changes it once it is handed over
  const char *n;
  template <class X, class Y, class U> double operator()(const X &x, const Y &y, const U &u, const double &e) const {
    double a[(ph + 1) * (W::nx + W::nu + W::ny) + 1];
    int k = W::pack(a, 0, x, ph + 1, W::nx); k = W::pack(a, k, y, ph + 1, W::ny); k = W::pack(a, k, u, ph + 1, W::nu);
    a[k++] = e;
    return W::fun(n, 0, a, k);
  }
};
struct Fm {
  const char *n; int rows;
  template <class V, class X, class U> void operator()(V &dx, const X &x, const U &u, const unsigned &t) const {
    double a[W::nx + W::nu + 1];
    int p = W::pack(a, 0, x, W::nx, 1); p = W::pack(a, p, u, W::nu, 1);
    a[p++] = t;
    for (int i = 0; i < rows; i++) dx(i) = W::fun(n, i, a, p);
  }
};
struct D : mpc::IDimensionable<mpc::MPCSize(W::dynamic ? -1 : W::nx, W::dynamic ? -1 : W::nu, 0, W::dynamic ? -1 : W::ny, W::dynamic ? -1 : W::ph, W::dynamic ? -1 : W::ch, W::dynamic ? -1 : W::ni, W::dynamic ? -1 : W::ne)> { using O = ObjFunHandle; using S = StateFunHandle; using Y = OutFunHandle; };
ENTRY(e_caller) {
  Also as0("C32.caller");
  W w;
  w.create();
  reads(w);
  w.everything();
  {
    Fn f{"oc"}; Fm m{"fc", W::nx}, g{"gc", W::ny};
    D::O h = f; D::S s = m; D::Y o = g;
    w.c->setObjectiveFunction(h); w.c->setStateSpaceFunction(s, 0.125f); w.c->setOutputFunction(o);
    w.fo = "oc"; w.ff = "fc"; w.tf = 0.125f; w.fg = "gc";
    f.n = "junk"; m.n = "junk"; g.n = "junk";
    h = Fn{"junk"}; s = Fm{"junk", W::nx}; o = nullptr;
  }
  w.params(true, true);
  w.xb("xl", "xh"); w.ubnd("ul", "uh");
  lent([&](auto &a, auto &b) { return w.c->setStateBounds(a, b); }, W::symM<W::nx, ph>("xl"), W::hiM<W::nx, ph>("xl", "xh"));
  lent([&](auto &a, auto &b) { return w.c->setInputBounds(a, b); }, W::symM<W::nu, ch>("ul"), W::hiM<W::nu, ch>("ul", "uh"));
  w.bounds("C32.caller");
  w.solverAnswers("Xa", "Oa");
  for (int i = 0; i < W::nx; i++) w.x0[i] = sa_real("x0", i, 0);
  for (int i = 0; i < W::nu; i++) w.u0[i] = sa_real("u0", i, 0);
  NL.evals = 1; NL.order = 4; NL.point = pts;
  lent([&](auto &a, auto &b) { w.c->optimize(a, b); return true; }, W::symV<W::nx>("x0"), W::symV<W::nu>("u0"));
  NL.evals = 0; NL.order = 0;
  w.functions(NL.e[0], false);
  w.guess("C19.cold");
  good(w, "C32.reading");
  w.remember();
  auto r1 = w.c->getLastResult(); auto q1 = w.c->getOptimalSequence();
  reads(w);
  HorizonSlice s(ph - 1, ph), u(ch - 1, ch);
  w.xbV("xl2", "xh2", s); lent([&](auto &a, auto &b) { return w.c->setStateBounds(a, b, s); }, W::symV<W::nx>("xl2"), W::hiV<W::nx>("xl2", "xh2"));
  w.ubV("ul2", "uh2", u); lent([&](auto &a, auto &b) { return w.c->setInputBounds(a, b, u); }, W::symV<W::nu>("ul2"), W::hiV<W::nu>("ul2", "uh2"));
  { mpc::NLParameters p; p.enable_warm_start = true; p.hard_constraints = false; w.params(true, false); w.c->setOptimizerParameters(p); p.enable_warm_start = false; p.hard_constraints = true; p.maximum_iteration = 3; }
  w.bounds("C32.caller");
  reads(w);
  w.solverAnswers("Xb", "Ob");
  evaluated(w, 1, 4, "x1", "u1");
  w.guess("C32.reading");
  w.bounds("C32.reading", true);
  good(w, "C32.reading");
  w.remember();
  reads(w);
  auto r2 = w.c->getLastResult();
  sa_ieq(w.c->getExecutionStats().numberOfSolutions, 2, "C32.reading", -1, 0);
  auto oldX = [&](const char *x0) { for (int i = 0; i < W::nx; i++) w.x0[i] = sa_real(x0, i, 0); };
  w.solverAnswers("Xc", "Oc");
  NL.ret = NLOPT_FAILURE;
  w.solve("x2", "u2");
  w.solverAnswers("Xb", "Ob");
  w.answer(r2, "C32.snapshot");
  w.solverAnswers("Xa", "Oa"); oldX("x0");
  w.answer(r1, "C32.snapshot");
  w.sequence(q1, "C32.snapshot");
  w.scaleX("+sx"); // the caller's scaling vectors
  { auto v = W::symV<W::nu>("+su"); w.c->setInputScale(v); for (int i = 0; i < W::nu; i++) w.su[i] = v(i); spoil(v); }
  { auto v = W::symV<W::nx>("+sy"); w.c->setStateScale(v); for (int i = 0; i < W::nx; i++) w.sx[i] = v(i); spoil(v); }
  w.solverAnswers("Xc", "Oc");
  reads(w);
  evaluated(w, 1, 4, "x1", "u1");
  w.bounds("C32.caller", true);
  good(w, "C32.reading");
  w.destroy();
}
ENTRY(e_stats) {
  W w;
  w.create();
  w.everything();
  const char *R = "C26.nonlinear";
  auto run = [&](nlopt_result ret) { w.solverAnswers("X", "O", ret); w.solve("x0", "u0"); };
  for (int round = 0; round < 2; round++) {
    run(NLOPT_SUCCESS); run(NLOPT_FAILURE); run(NLOPT_XTOL_REACHED); run(NLOPT_MAXEVAL_REACHED); run(NLOPT_FTOL_REACHED); run(NLOPT_INVALID_ARGS);
    auto s = w.c->getExecutionStats();
    sa_ieq(s.numberOfSolutions, 6, R, round, 0);
    sa_ieq(s.solutionsStates[mpc::SUCCESS], 3, R, round, 1);
    sa_ieq(s.solutionsStates[mpc::ERROR], 2, R, round, 2);
    sa_ieq(s.solutionsStates[mpc::MAX_ITERATION], 1, R, round, 3);
    sa_ieq(s.solutionsStates[mpc::INFEASIBLE], 0, R, round, 4);
    sa_ieq(s.solutionsStates[mpc::UNKNOWN], 0, R, round, 5);
    w.c->resetStats();
    sa_ieq(w.c->getExecutionStats().numberOfSolutions, 0, R, round, 6);
    sa_ieq(w.c->getExecutionStats().solutionsStates.size(), 0, R, round, 7);
  }
  w.destroy();
}

// ---------------------------------------------------------------- C27 all output goes through the logger
extern std::ostream sinkA, sinkB, sinkC; // some streams
static std::ostream *sink(int k) { return k == 0 ? &sinkA : k == 1 ? &sinkB : &sinkC; }
#define QUIET(name) \
  ENTRY(name##_deep) { mpc::Logger::instance().setStream(sink(0)).setLevel(mpc::Logger::DEEP); name##_body(); sa_stream_only(sink(0), "C27.stray"); } \
  ENTRY(name##_none) { mpc::Logger::instance().setStream(sink(0)).setLevel(mpc::Logger::NONE); name##_body(); sa_ieq(sa_stream_count(sink(0)), 0, "C27.silent", 0, 0); sa_stream_only(sink(0), "C27.stray"); }
QUIET(e_values)
QUIET(e_continuous)
QUIET(e_setters)
QUIET(e_fail)
QUIET(e_throw)
QUIET(e_params)
QUIET(e_bounds)
QUIET(e_slicing)
QUIET(e_scale)
QUIET(e_results)
QUIET(e_guess)
ENTRY(e_logger) {
  auto &l = mpc::Logger::instance();
  l.setStream(sink(0));
  W w;
  w.create();
  const mpc::Logger::log_level lv[] = {mpc::Logger::DEEP, mpc::Logger::NORMAL, mpc::Logger::ALERT, mpc::Logger::NONE};
  int n[3] = {}, at = 0;
  for (int k = 0; k < 4; k++) {
    w.c->setLoggerLevel(lv[k]);
    const mpc::Logger::log_type ty[] = {mpc::Logger::DETAIL, mpc::Logger::INFO, mpc::Logger::ERROR};
    for (int t = 0; t < 3; t++) {
      l.log(ty[t]) << "zq" << t << std::endl;
      n[t] += k < 3 && t >= k;
      at = n[0] + n[1] + n[2];
      sa_ieq(sa_stream_text(sink(0), "zq"), at, "C27.level", k, t);
    }
  }
  w.c->setLoggerLevel(mpc::Logger::NORMAL);
  w.c->setLoggerPrefix("abc");
  l.log(mpc::Logger::ERROR) << "xx" << std::endl;
  sa_ieq(sa_stream_text(sink(0), "[MPC++ abc] xx\n"), 1, "C27.level", 9, 0);
  w.destroy();
  l.log(mpc::Logger::ERROR) << "yy" << std::endl;
  sa_ieq(sa_stream_text(sink(0), "[MPC++ abc] yy\n"), 1, "C27.level", 9, 1);
  sa_stream_only(sink(0), "C27.stray");
}
