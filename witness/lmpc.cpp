// Linear controller.  Compiled once per configuration (-DCFG=...).
#define SA_MAIN
#include "lmpc.h"
#include <climits>
#ifndef CFG
#define CFG LW<false, 2, 2, 1, 3, 4, 2>
#endif
using W = CFG;
#define STR2(...) #__VA_ARGS__
#define STR(...) STR2(__VA_ARGS__)
#define ENTRY(name) extern "C" void name##_body(); extern "C" void name() { sa_scope(STR(CFG) " " #name); sa_heap_mark(); name##_body(); sa_heap_check("C10.leak"); sa_ieq(OS.live, 0, "C10.leak", 0, 0); } void name##_body()
static constexpr int ph = W::ph, ch = W::ch;

// C01 C02 C03 C05: whole-horizon matrices
ENTRY(e_full) {
  sa_generic(1);
  W w;
  w.create();
  w.everything();
  w.solve("x0", "u0");
  w.all();
  w.destroy();
}
// only the model: nothing else may restrict or cost anything
ENTRY(e_bare) {
  sa_generic(1);
  W w;
  w.create();
  w.model("A", "B", "C");
  w.solve("x0", "u0");
  w.all();
  w.destroy();
}
// C01 C02 C03: per-step values through slices and single steps
ENTRY(e_slices) {
  sa_generic(1);
  W w;
  w.create();
  w.model("A", "B", "C");
  if (W::nd) { w.dist("Bd", "Dd"); w.exoV("dm", HorizonSlice::all()); }
  w.weightsV("wy", "wu", "wd", HorizonSlice::all());
  w.refsV("ry", "ru", "rd", HorizonSlice::all());
  w.xbV("xl", "xh", HorizonSlice::all());
  w.ybV("yl", "yh", HorizonSlice::all());
  w.ubV("ul", "uh", HorizonSlice::all());
  w.scalar("sl", "sh", "sX", "sU", HorizonSlice::all());
  w.solve("x0", "u0");
  w.all();
  int a = ph > 1 ? 1 : 0, b = ph > 2 ? ph - 1 : ph;
  if (W::nd) w.exoV("dm2", HorizonSlice(a, b));
  w.weightsV("wy2", "wu2", "wd2", HorizonSlice(0, a + 1));
  w.refsV("ry2", "ru2", "rd2", HorizonSlice(a, ph));
  w.xbV("xl2", "xh2", HorizonSlice(ph - 1, ph));
  w.ybV("yl2", "yh2", HorizonSlice(0, 1));
  w.ubV("ul2", "uh2", HorizonSlice(ch - 1, ch));
  w.scalar("sl2", "sh2", "sX2", "sU2", HorizonSlice(a, b));
  w.solve("x2", "u2");
  w.all();
  if (W::nd) w.exoV("dm3", HorizonSlice(0, 1));
  w.weightsV("wy3", "wu3", "wd3", HorizonSlice(ph - 1, ph));
  w.refsV("ry3", "ru3", "rd3", HorizonSlice(0, 1));
  w.xbV("xl3", "xh3", HorizonSlice(0, a + 1));
  w.ybV("yl3", "yh3", HorizonSlice(a, b));
  w.ubV("ul3", "uh3", HorizonSlice(0, 1));
  w.scalarI("sl3", "sh3", "sX3", "sU3", 0);
  w.scalarI("sl4", "sh4", "sX4", "sU4", ph - 1);
  w.solve("x3", "u3");
  w.all();
  w.destroy();
}
ENTRY(e_steps) {
  sa_generic(1);
  W w;
  w.create();
  w.model("A", "B", "C");
  if (W::nd) { w.dist("Bd", "Dd"); w.exo("dm"); }
  w.constraints("a", ch - 1);
  w.solve("x0", "u0");
  w.all();
  w.constraints("b", 0);
  w.solve("x0", "u0");
  w.all();
  w.destroy();
}
static void paramsWarm(W &w, bool on) {
  mpc::LParameters p;
  p.enable_warm_start = on;
  w.c->setOptimizerParameters(p);
}
// C04: one step at a time on a controller on which nothing was set before, in several orders, some steps never
ENTRY(e_patchwork) {
  sa_generic(1);
  for (int way = 0; way < 3; way++) {
    W w;
    w.create();
    if (way == 2) { w.weights("Vy", "Vu", "Vd"); w.model("1A", "B", "C"); if (W::nd) w.dist("Bd", "Dd"); } // every column matters from the start
    for (int q = 0; q < ph; q++) {
      int k = way == 0 ? ph - 1 - q : way == 1 ? (q % 2 ? ph / 2 - 1 - q / 2 : ph / 2 + q / 2) : q; // backwards; from the middle out; forwards
      HorizonSlice s(k, k + 1);
      if (way == 2 && k % 2) continue;
      w.refsV("ry", "ru", "rd", s);
      if (way != 1 || q % 3 != 1) w.weightsV("wy", "wu", "wd", s);
      if (W::nd) w.exoV("dm", s);
      w.xbV("xl", "xh", s); 
      if (way != 1 || q % 3 != 2) w.ybV("yl", "yh", s);
      if (k < ch) w.ubV("ul", "uh", s);
      if (way == 1) w.scalarI("sl", "sh", "sX", "sU", k); else w.scalar("sl", "sh", "sX", "sU", s);
      if (q == 0) { w.model("A", "B", "C"); if (W::nd) w.dist("Bd", "Dd"); }
      if (q == 0 || q == ph - 1) { w.solve("x0", "u0"); w.all("C04.order"); }
    }
    for (int q = 0; q < ph; q++) { // again, other numbers, the other way round
      int k = way == 2 ? ph - 1 - q : q;
      HorizonSlice s(k, k + 1);
      w.refsV("py", "pu", "pd", s); w.weightsV("vy", "vu", "vd", s);
      if (W::nd) w.exoV("em", s);
      if (q == 0 || q == ph - 1) { w.solve("x0", "u0"); w.all("C04.order"); }
    }
    w.destroy();
  }
}
// zero is a value like any other, whatever was set before and is set next
static void zeros(W &w, int k) {
  switch (k) {
  case 0: w.model("1A", "0", "1C"); break;
  case 1: if (W::nd) w.dist("0", "0"); break;
  case 2: if (W::nd) w.exo("0"); break;
  case 3: w.weights("0", "0", "0"); break;
  case 4: w.refs("0", "0", "0"); break;
  case 5: w.xb("0", "0"); break;
  case 6: w.yb("0", "0"); break;
  case 7: w.ub("0", "0"); break;
  case 8: w.scalar("0", "0", "0", "0", HorizonSlice::all()); break;
  }
}
static void one(W &w, int k, const char *n);
ENTRY(e_zero) {
  sa_generic(1);
  W w;
  w.create();
  for (int k = 0; k < 9; k++) zeros(w, k);
  w.solve("0", "0");
  w.all("C04.zero");
  for (int k = 0; k < 9; k++) one(w, k, "a");
  w.solve("x0", "u0");
  w.all("C04.zero");
  for (int k = 0; k < 9; k++) { // this one alone, then back
    zeros(w, k);
    w.solve("x0", "u0");
    w.all("C04.zero");
    one(w, k, "b");
  }
  HorizonSlice f(0, 1), l(ph - 1, ph);
  w.weightsV("0", "c1", "0", f); w.refsV("c2", "0", "c3", l); w.xbV("0", "c4", f); w.ybV("c5", "0", l); w.scalar("0", "c6", "c7", "0", l);
  if (W::nd) { w.dist("c8", "0"); w.exoV("0", f); }
  w.model("c9", "0", "d1");
  w.solve("0", "u1");
  w.all("C04.zero");
  for (int k = 0; k < 9; k++) zeros(w, 8 - k);
  w.solve("x0", "0");
  w.all("C04.zero");
  w.destroy();
}
// numbers of all magnitudes pass through as they are
ENTRY(e_magnitudes) {
  sa_generic(1);
  sa_small(1e-40);
  W w;
  w.create();
  paramsWarm(w, true);
  const char *n[] = {"#a", "#c", "#f", "#b", "#k", "#h", "#d", "#m"};
  for (int r = 0; r < 2; r++) {
    auto N = [&](int k) { return n[(k + 3 * r) % 8]; };
    w.model(N(0), N(1), N(2));
    if (W::nd) { w.dist(N(3), N(4)); w.exo(N(5)); }
    w.weights(N(1), N(4), N(6)); w.refs(N(2), N(5), N(7));
    w.xb(N(0), N(3)); w.yb(N(1), N(4)); w.ub(N(2), N(5));
    w.scalar(N(6), N(1), N(4), N(0), HorizonSlice::all());
    for (int k = 0; k < 6; k++) {
      w.solverAnswers(n[k], n[(k + 3) % 8], n[k + 1]);
      auto q = w.solve(N(k + 1), N(k));
      w.answer(q, "C07.magnitudes");
      w.sequence(w.c->getOptimalSequence(), "C07.magnitudes");
      if (k < 2) w.all();
      w.lastIterate(n[k], n[(k + 3) % 8], "C11.iterate");
      if (k) w.warmed(n[k - 1], n[(k + 2) % 8], "C11.warm");
    }
  }
  sa_small(1);
  w.destroy();
}
// C05: numbers with exact zeros, tiny and huge values: the sparsity is decided by the values
ENTRY(e_sparse) {
  sa_small(1e-40);
  W w;
  w.create();
  auto fill = [](auto &m, double (*f)(int, int)) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) m(i, j) = f(i, j); };
  auto keep = [](auto &t, auto &m) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) t[i][j] = m(i, j); };
  auto A = W::symM<W::nx, W::nx>("t"); auto B = W::symM<W::nx, W::nu>("t"); auto C = W::symM<W::ny, W::nx>("t");
  fill(A, [](int i, int j) { return i == j ? 1.0 : i < j ? 1e-14 : 0.0; });
  fill(B, [](int i, int j) { return i == j ? -3e-13 : 0.0; });
  fill(C, [](int i, int j) { return i == j ? 1e9 : 0.0; });
  keep(w.A, A); keep(w.B, B); keep(w.Cm, C);
  w.c->setStateSpaceModel(A, B, C);
  auto wy = W::symM<W::ny, ph>("t"); auto wu = W::symM<W::nu, ph>("t"); auto wd = W::symM<W::nu, ph>("t");
  fill(wy, [](int i, int j) { return j % 2 ? 0.0 : 1e-20; });
  fill(wu, [](int i, int j) { return j == 0 ? 2.0 : 0.0; });
  fill(wd, [](int i, int j) { return j == ph - 1 ? 1e-15 : 0.0; });
  keep(w.wy, wy); keep(w.wu, wu); keep(w.wd, wd);
  w.c->setObjectiveWeights(wy, wu, wd);
  w.solve("x0", "u0");
  w.all("C05.values");
  sa_small(1);
  sa_generic(1);
  // a cost that couples the states of few steps, and one of few entries in all
  w.model("A", "B", "C");
  w.weights("0", "0", "0");
  w.weightsV("wy", "0", "0", HorizonSlice(ph - 1, ph));
  w.solve("x0", "u0");
  w.all("C05.values");
  w.weightsV("0", "0", "0", HorizonSlice::all());
  w.weightsV("wy", "0", "wd", HorizonSlice(0, 1));
  w.solve("x0", "u0");
  w.all("C05.values");
  w.destroy();
}
// C03: limits of any size, equal limits and one-sided ones reach the solver as they are
ENTRY(e_extreme) {
  sa_generic(1);
  sa_small(1e-310);
  W w;
  w.create();
  w.model("A", "B", "C");
  const double lo[] = {-INF, -1e30, -1e25, -1e20, -1e-9, 0, 1e-300, 7, 1e30, -INF, 2}, hi[] = {INF, 1e30, 1e18, INF, 1e-9, 0, 1e-300, 7.000001, INF, -1e300, 2};
  const int n = sizeof(lo) / sizeof(*lo);
  int q = 0;
  for (int k = 0; k < ph; k++) {
    auto xl = W::symV<W::nx>("t"), xh = xl; auto yl = W::symV<W::ny>("t"), yh = yl; auto ul = W::symV<W::nu>("t"), uh = ul;
    for (int i = 0; i < W::nx; i++, q++) { w.xl[i][k] = xl(i) = lo[q % n]; w.xh[i][k] = xh(i) = hi[q % n]; }
    for (int i = 0; i < W::ny; i++, q++) { w.yl[i][k] = yl(i) = lo[q % n]; w.yh[i][k] = yh(i) = hi[q % n]; }
    w.c->setStateBounds(xl, xh, HorizonSlice(k, k + 1));
    w.c->setOutputBounds(yl, yh, HorizonSlice(k, k + 1));
    if (k < ch) {
      for (int i = 0; i < W::nu; i++, q++) { w.ul[i][k] = ul(i) = lo[q % n]; w.uh[i][k] = uh(i) = hi[q % n]; }
      w.tailU();
      w.c->setInputBounds(ul, uh, HorizonSlice(k, k + 1));
    }
    auto X = W::symV<W::nx>("sX"); auto U = W::symV<W::nu>("sU");
    w.sl[k] = lo[(q + 4) % n]; w.sh[k] = hi[(q + 4) % n]; w.sSet[k] = true;
    for (int i = 0; i < W::nx; i++) w.sX[k][i] = X(i);
    for (int i = 0; i < W::nu; i++) w.sU[k][i] = U(i);
    w.c->setScalarConstraint(w.sl[k], w.sh[k], X, U, HorizonSlice(k, k + 1));
    w.solve("x0", "u0");
    w.all();
  }
  auto a = W::symM<W::nx, ph>("t"), b = a; auto c = W::symM<W::nu, ch>("t"), d = c; auto e = W::symM<W::ny, ph>("t"), f = e;
  for (int k = 0; k < ph; k++) {
    for (int i = 0; i < W::nx; i++) { int s = (5 * k + 3 * i) % n; w.xl[i][k] = a(i, k) = lo[s]; w.xh[i][k] = b(i, k) = hi[s]; }
    for (int i = 0; i < W::ny; i++) { int s = (5 * k + 3 * i + 2) % n; w.yl[i][k] = e(i, k) = lo[s]; w.yh[i][k] = f(i, k) = hi[s]; }
    if (k < ch) for (int i = 0; i < W::nu; i++) { int s = (5 * k + 3 * i + 1) % n; w.ul[i][k] = c(i, k) = lo[s]; w.uh[i][k] = d(i, k) = hi[s]; }
  }
  w.tailU();
  w.c->setStateBounds(a, b); w.c->setInputBounds(c, d); w.c->setOutputBounds(e, f);
  w.solve("x0", "u0");
  w.all();
  sa_small(1);
  w.destroy();
}
// C04: order, overwriting and solves in between do not matter
static void old(W &w) {
  w.model("oA", "oB", "oC");
  if (W::nd) { w.dist("oBd", "oDd"); w.exo("odm"); }
  w.weights("owy", "owu", "owd"); w.refs("ory", "oru", "ord");
  w.xb("oxl", "oxh"); w.yb("oyl", "oyh"); w.ub("oul", "ouh");
  w.scalar("osl", "osh", "osX", "osU", HorizonSlice::all());
}
static void one(W &w, int k, const char *n) {
  static char b[8][8];
  auto nm = [&](int s, const char *t) { int i = 0; for (; t[i]; i++) b[s][i] = t[i]; for (int j = 0; n[j]; j++) b[s][i++] = n[j]; b[s][i] = 0; return b[s]; };
  switch (k) {
  case 0: w.model(nm(0, "A"), nm(1, "B"), nm(2, "C")); break;
  case 1: if (W::nd) w.dist(nm(0, "Bd"), nm(1, "Dd")); break;
  case 2: if (W::nd) w.exo(nm(0, "dm")); break;
  case 3: w.weights(nm(0, "wy"), nm(1, "wu"), nm(2, "wd")); break;
  case 4: w.refs(nm(0, "ry"), nm(1, "ru"), nm(2, "rd")); break;
  case 5: w.xb(nm(0, "xl"), nm(1, "xh")); break;
  case 6: w.yb(nm(0, "yl"), nm(1, "yh")); break;
  case 7: w.ub(nm(0, "ul"), nm(1, "uh")); break;
  case 8: w.scalar(nm(0, "sl"), nm(1, "sh"), nm(2, "sX"), nm(3, "sU"), HorizonSlice::all()); break;
  }
}
ENTRY(e_order) {
  sa_generic(1);
  for (int way = 0; way < 6; way++) {
    W w;
    w.create();
    if (way & 1) old(w);
    if (way == 1) w.solve("ox", "ou");
    for (int k = 0; k < 9; k++) {
      int s = way < 2 ? 8 - k : way < 4 ? (k * 2 + 1) % 9 : (k * 5 + 3) % 9;
      one(w, s, way == 2 ? "p" : "q");
      if (way == 4) one(w, (s + 4) % 9, "q");
    }
    if (way == 2) { w.solve("ox", "ou"); for (int k = 0; k < 9; k++) one(w, (k * 7 + 2) % 9, "q"); }
    w.solve("x0", "u0");
    w.all("C04.order");
    w.destroy();
  }
}
// each setter alone, after each of the others: the rest stays
ENTRY(e_isolated) {
  sa_generic(1);
  W w;
  w.create();
  old(w);
  for (int k = 0; k < 9; k++) {
    one(w, k, "n");
    w.solve("x0", "u0");
    w.all("C04.isolated");
  }
  w.solve("x0", "u0");
  w.all("C04.isolated");
  w.destroy();
}
// overwriting one step, then the whole, then one step again
ENTRY(e_overwrite) {
  sa_generic(1);
  W w;
  w.create();
  w.model("A", "B", "C");
  for (int r = 0; r < 2; r++) {
    HorizonSlice s(0, 1), t(ph - 1, ph), u(ch - 1, ch);
    w.weightsV("a1", "a2", "a3", s); w.refsV("b1", "b2", "b3", s); w.xbV("c1", "c2", s); w.ybV("d1", "d2", s); w.ubV("e1", "e2", s); w.scalarI("f1", "f2", "f3", "f4", 0);
    w.weights("A1", "A2", "A3"); w.refs("B1", "B2", "B3"); w.xb("C1", "C2"); w.yb("D1", "D2"); w.ub("E1", "E2"); w.scalar("F1", "F2", "F3", "F4", HorizonSlice::all());
    if (W::nd) { w.dist("G1", "G2"); w.exoV("g3", s); w.exo("G3"); w.exoV("g3", t); }
    w.weightsV("a1", "a2", "a3", t); w.refsV("b1", "b2", "b3", t); w.xbV("c1", "c2", t); w.ybV("d1", "d2", t); w.ubV("e1", "e2", u); w.scalar("f1", "f2", "f3", "f4", t);
    w.solve("x0", "u0");
    w.all("C04.overwrite");
  }
  w.destroy();
}
// C07: answers
ENTRY(e_results) {
  sa_generic(1);
  W w;
  w.create();
  w.everything();
  const long long sts[] = {OSQP_SOLVED, OSQP_SOLVED_INACCURATE, OSQP_MAX_ITER_REACHED, OSQP_TIME_LIMIT_REACHED};
  const char *xs[] = {"X1", "X2", "X3", "X4"}, *ys[] = {"Y1", "Y2", "Y3", "Y4"}, *os[] = {"O1", "O2", "O3", "O4"}, *ins[] = {"x0", "x1", "x0", "x2"}, *us[] = {"u0", "u0", "u1", "u2"};
  for (int k = 0; k < 4; k++) {
    w.solverAnswers(xs[k], ys[k], os[k], sts[k]);
    if (k == 2) w.weights("w1", "w2", "w3");
    if (k == 3 && W::nd) w.exo("dm2");
    auto r = w.solve(ins[k], us[k]);
    w.all();
    w.answer(r, "C07.result");
    w.sequence(w.c->getOptimalSequence(), "C07.sequence");
    w.answer(w.c->getLastResult(), "C07.last");
    w.lastIterate(xs[k], ys[k], "C11.iterate");
    sa_ieq(r.status, w.c->getLastResult().status, "C07.last", -3, 0);
    sa_ieq(r.is_feasible, w.c->getLastResult().is_feasible, "C07.last", -4, 0);
  }
  w.destroy();
}
// many solves of one controller: nothing wears out, accumulates or is skipped
ENTRY(e_many) {
  sa_generic(1);
  W w;
  w.create();
  w.everything();
  const char *xs[] = {"X1", "X2", "X3"}, *ys[] = {"Y1", "Y2", "Y3"}, *os[] = {"O1", "O2", "O3"}, *in[] = {"x0", "x1", "x2", "x3"};
  for (int k = 0; k < 36; k++) {
    if (k % 5 == 4) { char n[3] = {'m', (char)('a' + k % 26), 0}; one(w, (k / 5) % 9, n); }
    if (k == 12 || k == 20) paramsWarm(w, k == 12);
    int q = k * 2 % 3, before = (k + 2) * 2 % 3;
    w.solverAnswers(xs[q], ys[q], os[q]);
    auto r = w.solve(in[(k + k / 7) % 4], "u0");
    w.answer(r, "C07.many");
    if (k > 12 && k <= 19) w.warmed(xs[before], ys[before], "C11.many"); else if (k != 12) w.cold("C11.many");
    if (k % 5 != 1 || k > 30) { w.all("C04.many"); w.sequence(w.c->getOptimalSequence(), "C07.many"); }
  }
  w.destroy();
}
// C09 C08: every outcome of the solver, after no / a good / a bad solve
struct Out { int setup, ret; long long st; int status; int feasible; bool has; };
static const Out outs[] = {
    {0, 0, OSQP_SOLVED, mpc::SUCCESS, 1, true},
    {0, 0, OSQP_SOLVED_INACCURATE, mpc::SUCCESS, 1, true},
    {0, 0, OSQP_MAX_ITER_REACHED, mpc::MAX_ITERATION, 2, true},
    {0, 0, OSQP_TIME_LIMIT_REACHED, mpc::MAX_ITERATION, 2, true},
    {0, 0, OSQP_PRIMAL_INFEASIBLE, mpc::INFEASIBLE, 0, false},
    {0, 0, OSQP_DUAL_INFEASIBLE, mpc::INFEASIBLE, 0, false},
    {0, 0, OSQP_PRIMAL_INFEASIBLE_INACCURATE, mpc::INFEASIBLE, 0, false},
    {0, 0, OSQP_DUAL_INFEASIBLE_INACCURATE, mpc::INFEASIBLE, 0, false},
    {0, 0, OSQP_NON_CVX, mpc::ERROR, 0, false},
    {0, 0, OSQP_UNSOLVED, mpc::UNKNOWN, 0, false},
    {0, 0, -77, mpc::UNKNOWN, 0, false},
    {0, 0, 99, mpc::UNKNOWN, 0, false},
    {0, 0, OSQP_SIGINT, mpc::ERROR, 0, false},
    {0, 1, OSQP_UNSOLVED, -1, 0, false},
    {0, 1, OSQP_SOLVED, -1, 0, false},
    {0, 7, OSQP_SOLVED_INACCURATE, -1, 0, false},
    {OSQP_DATA_VALIDATION_ERROR, 0, 0, -1, 0, false},
    {OSQP_SETTINGS_VALIDATION_ERROR, 0, 0, -1, 0, false},
    {OSQP_NONCVX_ERROR, 0, 0, -1, 0, false},
    {OSQP_MEM_ALLOC_ERROR, 0, 0, -1, 0, false},
};
static void outcome(W &w, const Out &o, const double *prev, int k) {
  auto r = w.solve("x0", "u0");
  if (!o.setup && !o.ret) sa_ieq(r.solver_status, o.st, "C09.code", k, 0);
  if (o.status >= 0) sa_ieq(r.status, o.status, "C09.status", k, 0);
  if (o.feasible < 2) sa_ieq(r.is_feasible, o.feasible, "C09.feasible", k, 0);
  if (o.has) { w.answer(r, "C07.result"); w.sequence(w.c->getOptimalSequence(), "C07.sequence"); return; }
  sa_true(r.status != mpc::SUCCESS, "C08.status", k, 0);
  sa_true(!r.is_feasible, "C08.feasible", k, 0);
  w.cmdIs(r, prev, "C08.cmd");
  w.zero(w.c->getOptimalSequence(), "C08.sequence");
  auto l = w.c->getLastResult();
  w.cmdIs(l, prev, "C08.cmd");
  sa_true(l.status != mpc::SUCCESS && !l.is_feasible, "C08.last", k, 0);
}
static void script(const Out &o) {
  OS.setup_ret = o.setup; OS.solve_ret = o.ret; OS.status = o.st;
}
ENTRY(e_outcomes) {
  Also as0("C08.outcomes");
  sa_generic(1);
  sa_ieq(mpc::SUCCESS, 0, "C09.codes", 0, 0); sa_ieq(mpc::MAX_ITERATION, 1, "C09.codes", 1, 0); sa_ieq(mpc::INFEASIBLE, 2, "C09.codes", 2, 0); sa_ieq(mpc::ERROR, 3, "C09.codes", 3, 0); sa_ieq(mpc::UNKNOWN, 4, "C09.codes", 4, 0); // as documented
  const int N = sizeof(outs) / sizeof(outs[0]);
  double zero[W::nu] = {};
  for (int k = 0; k < N; k++) {
    W w;
    w.create();
    w.everything();
    bool warm = k % 3;
    if (warm) paramsWarm(w, true);
    w.solverAnswers("Xa", "Ya", "Oa");
    script(outs[k]);
    outcome(w, outs[k], zero, k); // first solve
    double prev[W::nu];
    w.solverAnswers("Xb", "Yb", "Ob");
    w.solve("x1", "u1");
    if (!outs[k].has) w.cold("C08.warm");
    for (int i = 0; i < W::nu; i++) prev[i] = OS.x[W::sI(1, W::nx + i)];
    w.solverAnswers("Xc", "Yc", "Oc");
    script(outs[k]);
    outcome(w, outs[k], prev, 100 + k); // after a good one
    if (!outs[k].has) {
      w.lastIterate("Xb", "Yb", "C11.iterate");
      outcome(w, outs[k], prev, 200 + k); // twice in a row
      w.solverAnswers("Xd", "Yd", "Od");
      auto r = w.solve("x0", "u0");
      if (warm) w.warmed("Xb", "Yb", "C08.warm"); else w.cold("C08.warm");
      w.answer(r, "C07.result");
      w.sequence(w.c->getOptimalSequence(), "C07.sequence");
      w.all();
    }
    w.destroy();
  }
}
// C08: allocation failures inside the set-up
ENTRY(e_alloc) {
  Also as0("C08.outcomes");
  sa_generic(1);
  double prev[W::nu];
  for (int at = 1; at <= 5; at++) {
    W w;
    w.create();
    w.everything();
    w.solverAnswers("Xb", "Yb", "Ob");
    w.solve("x1", "u1");
    for (int i = 0; i < W::nu; i++) prev[i] = OS.x[W::sI(1, W::nx + i)];
    w.solverAnswers("Xc", "Yc", "Oc");
    OS.alloc_fail_at = at;
    auto r = w.solve("x0", "u0");
    if (OS.alloc_fail_at == 0) {
      w.cmdIs(r, prev, "C08.cmd");
      sa_true(r.status != mpc::SUCCESS && !r.is_feasible, "C08.status", at, 1);
      w.zero(w.c->getOptimalSequence(), "C08.sequence");
    } else sa_reach("C08.cmd");
    OS.alloc_fail_at = 0;
    r = w.solve("x2", "u2");
    w.answer(r, "C07.result");
    w.all();
    w.destroy();
  }
}
// C06
static mpc::LParameters symP(const char *a, bool b1, bool b2, bool b3, bool b4) {
  mpc::LParameters p;
  p.alpha = sa_real(a, 0, 0); p.rho = sa_real(a, 1, 0); p.eps_rel = sa_real(a, 2, 0); p.eps_abs = sa_real(a, 3, 0);
  p.eps_prim_inf = sa_real(a, 4, 0); p.eps_dual_inf = sa_real(a, 5, 0); p.time_limit = sa_real(a, 6, 0);
  p.maximum_iteration = sa_int(a);
  p.verbose = b1; p.adaptive_rho = b2; p.polish = b3; p.enable_warm_start = b4;
  return p;
}
static void inForce(const mpc::LParameters &p, int k) {
  const char *R = "C06.linear";
  sa_eq(&OS.set.alpha, p.alpha, R, k, 0); sa_eq(&OS.set.rho, p.rho, R, k, 1); sa_eq(&OS.set.eps_rel, p.eps_rel, R, k, 2); sa_eq(&OS.set.eps_abs, p.eps_abs, R, k, 3);
  sa_eq(&OS.set.eps_prim_inf, p.eps_prim_inf, R, k, 4); sa_eq(&OS.set.eps_dual_inf, p.eps_dual_inf, R, k, 5); sa_eq(&OS.set.time_limit, p.time_limit, R, k, 6);
  sa_ieq(OS.set.max_iter, p.maximum_iteration, R, k, 7);
  sa_ieq(OS.set.verbose, p.verbose, R, k, 8); sa_ieq(OS.set.adaptive_rho, p.adaptive_rho, R, k, 9); sa_ieq(OS.set.polish, p.polish, R, k, 10);
}
ENTRY(e_params) {
  Also as0("C06.linear");
  sa_generic(1);
  W w;
  w.create();
  w.everything();
  w.solve("x0", "u0");
  { mpc::LParameters d; inForce(d, 0); }
  int n = 1;
  for (int k = 0; k < 8; k++) {
    auto p = symP(k & 1 ? "p" : "r", k & 1, k & 2, k & 4, !(k & 1));
    w.c->setOptimizerParameters(p);
    auto q = p;
    p = symP("junk", !(k & 1), !(k & 2), !(k & 4), true); // the caller's copy is the caller's business
    if (k == 3) w.weights("w1", "w2", "w3");
    w.solve("x0", "u0");
    inForce(q, n++);
    if (k == 2) { w.solve("x0", "u0"); inForce(q, n++); }
  }
  // extreme values
  for (int k = 0; k < 3; k++) {
    mpc::LParameters p;
    p.alpha = k ? 1e-12 : 1.999; p.rho = k ? 1e12 : 1e-12; p.eps_rel = k ? 1e-15 : 1e5; p.eps_abs = k ? 1e-16 : 1e6; p.eps_prim_inf = k ? 1e-14 : 1e7; p.eps_dual_inf = k ? 1e-13 : 1e8;
    p.time_limit = k ? 1e-6 : 1e9;
    p.maximum_iteration = k == 0 ? INT_MAX : k == 1 ? 1 : 70000;
    w.c->setOptimizerParameters(p);
    w.solve("x0", "u0");
    sa_small(1e-20);
    inForce(p, n++);
    sa_small(1);
  }
  // the latest of several calls, including back to the defaults
  w.c->setOptimizerParameters(symP("r", true, true, true, true));
  w.c->setOptimizerParameters(symP("p", false, true, false, true));
  { mpc::LParameters d; w.c->setOptimizerParameters(d); w.solve("x0", "u0"); inForce(d, n++); }
  // the parameters of the other controller are refused, nothing changes
  auto last = symP("p", true, false, false, true);
  w.c->setOptimizerParameters(last);
  mpc::NLParameters other;
  other.time_limit = 77; other.maximum_iteration = 3;
  w.c->setOptimizerParameters(other);
  w.solve("x0", "u0");
  inForce(last, n++);
  w.all();
  w.destroy();
}
// C11
ENTRY(e_warm) {
  Also as0("C11.warm");
  sa_generic(1);
  W w;
  w.create();
  w.everything();
  const char *R = "C11.warm";
  w.solverAnswers("X1", "Y1", "O1");
  w.solve("x0", "u0");
  w.cold("C11.cold");
  w.solverAnswers("X2", "Y2", "O2");
  w.solve("x1", "u1");
  w.cold("C11.cold"); // off by default
  w.lastIterate("X2", "Y2", "C11.iterate");
  paramsWarm(w, true);
  w.solverAnswers("X3", "Y3", "O3");
  w.solve("x1", "u1");
  w.warmed("X2", "Y2", R);
  w.solverAnswers("X4", "Y4", "O4");
  w.solve("x2", "u2");
  w.warmed("X3", "Y3", R);
  w.lastIterate("X4", "Y4", "C11.iterate");
  std::vector<double> p(W::NV), d(W::NC);
  for (int k = 0; k < W::NV; k++) p[k] = sa_real("Xu", k, 0);
  for (int k = 0; k < W::NC; k++) d[k] = sa_real("Yu", k, 0);
  w.c->setSolverWarmStart(p, d);
  w.lastIterate("Xu", "Yu", "C11.iterate");
  w.solverAnswers("X5", "Y5", "O5");
  w.solve("x3", "u3");
  w.warmed("Xu", "Yu", R);
  w.solverAnswers("X6", "Y6", "O6");
  w.solve("x3", "u3");
  w.warmed("X5", "Y5", R); // the user's iterate serves once
  paramsWarm(w, false);
  w.c->setSolverWarmStart(p, d);
  w.solve("x3", "u3");
  w.cold("C11.cold");
  w.solve("x4", "u4");
  w.cold("C11.cold");
  paramsWarm(w, true);
  w.solve("x4", "u4");
  w.warmed("X6", "Y6", R);
  w.all();
  w.destroy();
  // user iterate before the first solve
  W v;
  v.create();
  v.everything();
  paramsWarm(v, true);
  v.c->setSolverWarmStart(p, d);
  v.solve("x0", "u0");
  v.warmed("Xu", "Yu", R);
  v.destroy();
  W z;
  z.create();
  z.everything();
  paramsWarm(z, true);
  z.solverAnswers("X1", "Y1", "O1");
  z.solve("x0", "u0");
  z.cold("C11.cold"); // nothing to start from
  z.solve("x0", "u0");
  z.warmed("X1", "Y1", R);
  z.destroy();
}
// C10 C24: life cycles
ENTRY(e_life) {
  sa_generic(1);
  { W w; w.create(); w.destroy(); }
  { W w; w.create(); w.everything(); w.destroy(); }
  { W w; w.create(); paramsWarm(w, true); w.model("A", "B", "C"); w.solve("x0", "u0"); w.destroy(); }
  { W w; w.create(); w.everything(); for (int k = 0; k < 3; k++) w.solve("x0", "u0"); w.destroy(); }
  {
    W w; w.create();
    // readable before any solve
    w.zero(w.c->getOptimalSequence(), "C24.initial");
    auto r = w.c->getLastResult();
    double zero[W::nu] = {};
    w.cmdIs(r, zero, "C24.initial");
    sa_true(!r.is_feasible && r.status == mpc::UNKNOWN, "C24.initial", 0, 0);
    sa_init(&r.cost, 8, 8, "C24.initial"); sa_init(&r.solver_status, sizeof r.solver_status, 4, "C24.initial");
    sa_ieq(w.c->getSolverWarmStartPrimal().size(), 0, "C24.initial", 0, 1);
    sa_ieq(w.c->getExecutionStats().numberOfSolutions, 0, "C26.count", 0, 0);
    w.destroy();
  }
  sa_ieq(OS.live, 0, "C10.workspace", 0, 0);
  sa_ieq(OS.setups - OS.cleanups, 0, "C10.workspace", 0, 1);
}
// C20 C22: what a setter answers and what it does, for every slice
template <class F> static void slices(W &w, int all, int kind, F f) {
  const int v[] = {INT_MIN, -2, -1, 0, 1, 2, all - 1, all, all + 1, INT_MAX};
  bool changed = false;
  char n[4] = {'v', (char)('a' + kind), 0, 0};
  int used = 0;
  for (int ia = 0; ia < 10; ia++)
    for (int ib = 0; ib < 10; ib++) {
      int a = v[ia], b = v[ib];
      bool dup = false; // all-1 etc. may coincide with the small values
      for (int p = 0; p < ia; p++) dup |= v[p] == a;
      for (int p = 0; p < ib; p++) dup |= v[p] == b;
      if (dup) continue;
      bool ok = (a == -1 && b == -1) || (a >= 0 && a < b && b <= all);
      W before = w;
      n[2] = (char)('a' + (used++ % 26));
      bool r = f(w, HorizonSlice(a, b), n);
      { Also as("C20.reports"); sa_ieq(r, ok, "C22.accepted", a, b); }
      if (!ok) { auto c = w.c; w = before; w.c = c; }
      if (ok) { w.solve("x0", "u0"); w.all("C22.effect"); changed = false; }
      else changed = true;
    }
  if (changed) { w.solve("x0", "u0"); w.all("C22.rejected"); }
}
ENTRY(e_slicing) {
  sa_generic(1);
  W w;
  w.create();
  w.everything();
  slices(w, ph, 0, [](W &w, HorizonSlice s, const char *n) { return w.xbV(n, "hi", s); });
  slices(w, ph, 1, [](W &w, HorizonSlice s, const char *n) { return w.ybV(n, "hi", s); });
  slices(w, ch, 2, [](W &w, HorizonSlice s, const char *n) { return w.ubV(n, "hi", s); });
  slices(w, ph, 3, [](W &w, HorizonSlice s, const char *n) { return w.weightsV(n, n, n, s); });
  slices(w, ph, 4, [](W &w, HorizonSlice s, const char *n) { return w.refsV(n, n, n, s); });
  slices(w, ph, 5, [](W &w, HorizonSlice s, const char *n) { return w.scalar(n, "hi", n, n, s); });
  if (W::nd) slices(w, ph, 6, [](W &w, HorizonSlice s, const char *n) { return w.exoV(n, s); });
  w.destroy();
}
ENTRY(e_setters) {
  Also as0("C20.inforce");
  sa_generic(1);
  W w;
  w.create();
  const char *R = "C20.reports";
  auto after = [&](bool r, int k) { sa_ieq(r, 1, R, k, 0); w.solve("x0", "u0"); w.all("C20.inforce"); };
  after(w.model("A", "B", "C"), 0);
  if (W::nd) { after(w.dist("Bd", "Dd"), 1); after(w.exo("dm"), 2); after(w.exoV("dm1", HorizonSlice::all()), 3); }
  after(w.weights("wy", "wu", "wd"), 4);
  after(w.weightsV("wy1", "wu1", "wd1", HorizonSlice::all()), 5);
  after(w.refs("ry", "ru", "rd"), 6);
  after(w.refsV("ry1", "ru1", "rd1", HorizonSlice::all()), 7);
  after(w.xb("xl", "xh"), 8); after(w.yb("yl", "yh"), 9); after(w.ub("ul", "uh"), 10);
  after(w.xbV("xl1", "xh1", HorizonSlice::all()), 11); after(w.ybV("yl1", "yh1", HorizonSlice::all()), 12); after(w.ubV("ul1", "uh1", HorizonSlice::all()), 13);
  after(w.scalar("sl", "sh", "sX", "sU", HorizonSlice::all()), 14);
  after(w.scalarI("sl1", "sh1", "sX1", "sU1", ph - 1), 15);
  after(w.scalarI("sl2", "sh2", "sX2", "sU2", 0), 16);
  after(w.constraints("s", 0), 17);
  after(w.constraints("t", ch - 1), 18);
  // steps that do not exist
  const unsigned bad[] = {(unsigned)ph, (unsigned)ph + 1, 0x7fffffffu, 0x80000000u, 0xffffffffu};
  for (unsigned b : bad) {
    W before = w;
    auto x1 = W::symV<W::nx>("b1"), x2 = W::symV<W::nx>("b2");
    auto u1 = W::symV<W::nu>("b3"), u2 = W::symV<W::nu>("b4");
    auto y1 = W::symV<W::ny>("b5"), y2 = W::symV<W::ny>("b6");
    sa_ieq(w.c->setConstraints(b, x1, u1, y1, x2, u2, y2), 0, R, b, 1);
    sa_ieq(w.c->setScalarConstraint(b, sa_real("b7", 0, 0), sa_real("b8", 0, 0), x1, u1), 0, R, b, 2);
    w.solve("x0", "u0");
    w.all("C20.refused");
  }
  // what this controller does not have
  for (int k = 0; k < 3; k++) {
    bool thrown = false;
    try {
      if (k == 0) thrown = !w.c->setDiscretizationSamplingTime(sa_real("+ts", 0, 0));
      if (k == 1) w.c->setInputScale(W::symV<W::nu>("b9"));
      if (k == 2) w.c->setStateScale(W::symV<W::nx>("b9"));
    } catch (const std::exception &) { thrown = true; }
    sa_true(thrown, R, k, 3);
  }
  w.solve("x0", "u0");
  w.all("C20.refused");
  w.destroy();
}
// C25: two controllers side by side
ENTRY(e_two) {
  Also as0("C25.two");
  sa_generic(1);
  W a, b;
  a.create();
  a.everything();
  b.create();
  for (int k = 0; k < 9; k++) one(b, k, "n");
  auto pa = symP("pa", false, true, true, true), pb = symP("pb", true, false, false, true);
  a.c->setOptimizerParameters(pa);
  b.c->setOptimizerParameters(pb);
  a.solverAnswers("Xa", "Ya", "Oa");
  a.solve("x0", "u0");
  a.all("C25.problem");
  sa_eq(&OS.set.alpha, pa.alpha, "C25.params", 0, 0); sa_ieq(OS.set.max_iter, pa.maximum_iteration, "C25.params", 0, 1);
  b.solverAnswers("Xb", "Yb", "Ob");
  b.solve("x1", "u1");
  b.all("C25.problem");
  b.cold("C25.iterate");
  sa_eq(&OS.set.alpha, pb.alpha, "C25.params", 1, 0); sa_ieq(OS.set.max_iter, pb.maximum_iteration, "C25.params", 1, 1);
  b.answer(b.c->getLastResult(), "C25.result");
  b.sequence(b.c->getOptimalSequence(), "C25.result");
  a.lastIterate("Xa", "Ya", "C25.iterate");
  a.solverAnswers("Xa", "Ya", "Oa");
  a.answer(a.c->getLastResult(), "C25.result");
  a.sequence(a.c->getOptimalSequence(), "C25.result");
  sa_ieq(a.c->getExecutionStats().numberOfSolutions, 1, "C25.stats", 0, 0);
  sa_ieq(b.c->getExecutionStats().numberOfSolutions, 1, "C25.stats", 1, 0);
  a.c->resetStats();
  sa_ieq(b.c->getExecutionStats().numberOfSolutions, 1, "C25.stats", 2, 0);
  a.solve("x0", "u0");
  a.warmed("Xa", "Ya", "C25.iterate");
  a.all("C25.problem");
  b.destroy();
  a.solve("x2", "u2");
  a.all("C25.problem");
  a.answer(a.c->getLastResult(), "C25.result");
  a.destroy();
}
// the parameters of the one are not those of the other
static void given(const mpc::LParameters &p, int k) { Also as("C25.params"); inForce(p, k); }
ENTRY(e_two_params) {
  Also as0("C25.two");
  sa_generic(1);
  W a, b;
  a.create();
  b.create();
  a.everything();
  for (int k = 0; k < 9; k++) one(b, k, "n");
  for (int k = 0; k < 2; k++) {
    W &p = k ? b : a, &q = k ? a : b;
    auto pp = symP("pa", false, true, k, true), pq = symP("pb", true, false, !k, false);
    p.c->setOptimizerParameters(pp);
    q.c->setOptimizerParameters(pq);
    p.solverAnswers("X1", "Y1", "O1");
    p.solve("x0", "u0");
    given(pp, 0);
    q.solverAnswers("X2", "Y2", "O2");
    q.solve("x1", "u1");
    given(pq, 1);
    q.cold("C25.iterate");
    p.solverAnswers("X3", "Y3", "O3");
    p.solve("x2", "u2");
    given(pp, 2);
    p.warmed("X1", "Y1", "C25.iterate");
    p.all("C25.problem");
    q.solve("x3", "u3");
    q.cold("C25.iterate");
    p.lastIterate("X3", "Y3", "C25.iterate");
  }
  std::vector<double> x(W::NV), y(W::NC);
  for (int k = 0; k < W::NV; k++) x[k] = sa_real("Xu", k, 0);
  for (int k = 0; k < W::NC; k++) y[k] = sa_real("Yu", k, 0);
  auto on = symP("pc", false, true, true, true);
  a.c->setOptimizerParameters(on); b.c->setOptimizerParameters(on);
  a.c->setSolverWarmStart(x, y);
  b.solve("x0", "u0");
  b.warmed("X3", "Y3", "C25.iterate");
  a.solve("x0", "u0");
  a.warmed("Xu", "Yu", "C25.iterate");
  b.destroy();
  a.destroy();
}
// controllers of different sizes in one process
template <class A, class B> static void sized() {
  Also as0("C25.two");
  A a;
  B b;
  a.create();
  a.everything();
  a.solverAnswers("X1", "Y1", "O1");
  a.solve("x0", "u0");
  a.all("C25.problem");
  a.answer(a.c->getLastResult(), "C25.result");
  b.create();
  b.everything();
  b.solverAnswers("X2", "Y2", "O2");
  b.solve("x1", "u1");
  b.all("C25.problem");
  b.answer(b.c->getLastResult(), "C25.result");
  b.sequence(b.c->getOptimalSequence(), "C25.result");
  a.weights("w1", "w2", "w3");
  a.solverAnswers("X3", "Y3", "O3");
  a.solve("x2", "u2");
  a.all("C25.problem");
  a.sequence(a.c->getOptimalSequence(), "C25.result");
  b.yb("b1", "b2");
  b.solve("x3", "u3");
  b.all("C25.problem");
  a.destroy();
  b.solverAnswers("X4", "Y4", "O4");
  b.solve("x4", "u4");
  b.answer(b.c->getLastResult(), "C25.result");
  b.sequence(b.c->getOptimalSequence(), "C25.result");
  b.destroy();
}
ENTRY(e_two_sizes) {
  sa_generic(1);
  using S = LW<W::dynamic, W::nx == 2 ? 1 : 2, W::nu == 1 ? 2 : 1, 1, 1, W::ph == 2 ? 3 : 2, 2>;
  sized<W, S>();
  sized<S, W>();
}
// C32: nothing is shared with the caller
static int junk = 0;
template <class M> static void spoil(M &m) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) m(i, j) = sa_real("junk", i + 50 * j, junk++ % 40); }
template <class F, class... M> static bool lent(F f, M... m) { bool r = f(m...); (spoil(m), ...); return r; } // the caller's variables, reused at once
static void reads(W &w) {
  auto r = w.c->getLastResult(); auto s = w.c->getOptimalSequence(); auto p = w.c->getSolverWarmStartPrimal(); auto d = w.c->getSolverWarmStartDual();
  auto st = w.c->getExecutionStats();
  r.cost = 0; r.status = mpc::ERROR; r.is_feasible = false; r.solver_status = 31; spoil(r.cmd);
  spoil(s.state); spoil(s.input); spoil(s.output);
  for (auto &v : p) v = sa_real("junk", 0, junk++ % 40);
  for (auto &v : d) v = sa_real("junk", 1, junk++ % 40);
  p.clear(); d.resize(1); st.numberOfSolutions = 0; st.solutionsStates.clear();
}
ENTRY(e_caller) {
  Also as0("C32.caller");
  sa_generic(1);
  W w;
  w.create();
  reads(w);
  HorizonSlice s(ph - 1, ph), u(ch - 1, ch);
  auto all = HorizonSlice::all();
  w.put(w.A, "A"); w.put(w.B, "B"); w.put(w.Cm, "C");
  lent([&](auto &a, auto &b, auto &c) { return w.c->setStateSpaceModel(a, b, c); }, W::symM<W::nx, W::nx>("A"), W::symM<W::nx, W::nu>("B"), W::symM<W::ny, W::nx>("C"));
  if constexpr (W::nd > 0) {
    w.dist("Bd", "Dd"); w.exo("dm");
    lent([&](auto &a, auto &b) { return w.c->setDisturbances(a, b); }, W::symM<W::nx, W::nd>("Bd"), W::symM<W::ny, W::nd>("Dd"));
    lent([&](auto &a) { return w.c->setExogenousInputs(a); }, W::symM<W::nd, ph>("dm"));
  }
  w.put(w.wy, "wy"); w.put(w.wu, "wu"); w.put(w.wd, "wd");
  lent([&](auto &a, auto &b, auto &c) { return w.c->setObjectiveWeights(a, b, c); }, W::symM<W::ny, ph>("wy"), W::symM<W::nu, ph>("wu"), W::symM<W::nu, ph>("wd"));
  w.put(w.ry, "ry"); w.put(w.ru, "ru"); w.put(w.rd, "rd");
  lent([&](auto &a, auto &b, auto &c) { return w.c->setReferences(a, b, c); }, W::symM<W::ny, ph>("ry"), W::symM<W::nu, ph>("ru"), W::symM<W::nu, ph>("rd"));
  w.put(w.xl, "xl"); w.put(w.xh, "xh");
  lent([&](auto &a, auto &b) { return w.c->setStateBounds(a, b); }, W::symM<W::nx, ph>("xl"), W::symM<W::nx, ph>("xh"));
  w.put(w.yl, "yl"); w.put(w.yh, "yh");
  lent([&](auto &a, auto &b) { return w.c->setOutputBounds(a, b); }, W::symM<W::ny, ph>("yl"), W::symM<W::ny, ph>("yh"));
  w.ub("ul", "uh");
  lent([&](auto &a, auto &b) { return w.c->setInputBounds(a, b); }, W::symM<W::nu, ch>("ul"), W::symM<W::nu, ch>("uh"));
  for (int k = 0; k < ph; k++) w.scalarStep("sl", "sh", "sX", "sU", k);
  lent([&](auto &a, auto &b) { double l = sa_real("sl", 0, 0), h = sa_real("sh", 0, 0); bool r = w.c->setScalarConstraint(l, h, a, b, all); l = h = 0; return r; }, W::symV<W::nx>("sX"), W::symV<W::nu>("sU"));
  w.solverAnswers("X1", "Y1", "O1");
  for (int i = 0; i < W::nx; i++) w.x0[i] = sa_real("x0", i, 0);
  for (int i = 0; i < W::nu; i++) w.u0[i] = sa_real("u0", i, 0);
  lent([&](auto &a, auto &b) { w.c->optimize(a, b); return true; }, W::symV<W::nx>("x0"), W::symV<W::nu>("u0"));
  w.all();
  reads(w);
  w.solve("x0", "u0");
  w.all();
  auto r1 = w.c->getLastResult(); auto q1 = w.c->getOptimalSequence(); auto p1 = w.c->getSolverWarmStartPrimal(); auto d1 = w.c->getSolverWarmStartDual();
  // single steps
  if constexpr (W::nd > 0) { w.exoV("dm2", s); lent([&](auto &a) { return w.c->setExogenousInputs(a, s); }, W::symV<W::nd>("dm2")); }
  w.weightsV("w2", "v2", "d2", s);
  lent([&](auto &a, auto &b, auto &c) { return w.c->setObjectiveWeights(a, b, c, s); }, W::symV<W::ny>("w2"), W::symV<W::nu>("v2"), W::symV<W::nu>("d2"));
  w.refsV("r2", "s2", "t2", s);
  lent([&](auto &a, auto &b, auto &c) { return w.c->setReferences(a, b, c, s); }, W::symV<W::ny>("r2"), W::symV<W::nu>("s2"), W::symV<W::nu>("t2"));
  reads(w);
  w.xbV("xl2", "xh2", s); lent([&](auto &a, auto &b) { return w.c->setStateBounds(a, b, s); }, W::symV<W::nx>("xl2"), W::symV<W::nx>("xh2"));
  w.ybV("yl2", "yh2", s); lent([&](auto &a, auto &b) { return w.c->setOutputBounds(a, b, s); }, W::symV<W::ny>("yl2"), W::symV<W::ny>("yh2"));
  w.ubV("ul2", "uh2", u); lent([&](auto &a, auto &b) { return w.c->setInputBounds(a, b, u); }, W::symV<W::nu>("ul2"), W::symV<W::nu>("uh2"));
  w.scalarStep("sl2", "sh2", "sX2", "sU2", 0);
  lent([&](auto &a, auto &b) { return w.c->setScalarConstraint(0u, sa_real("sl2", 0, 0), sa_real("sh2", 0, 0), a, b); }, W::symV<W::nx>("sX2"), W::symV<W::nu>("sU2"));
  w.constraints("k", 0);
  lent([&](auto &a, auto &b, auto &c, auto &d, auto &e, auto &f) { return w.c->setConstraints(0u, a, b, c, d, e, f); }, W::symV<W::nx>("xlk"), W::symV<W::nu>("ulk"), W::symV<W::ny>("ylk"), W::symV<W::nx>("xhk"), W::symV<W::nu>("uhk"), W::symV<W::ny>("yhk"));
  { mpc::LParameters p; p.enable_warm_start = true; w.c->setOptimizerParameters(p); p.enable_warm_start = false; p.maximum_iteration = 3; }
  {
    std::vector<double> p(W::NV), d(W::NC);
    for (int k = 0; k < W::NV; k++) p[k] = sa_real("Xu", k, 0);
    for (int k = 0; k < W::NC; k++) d[k] = sa_real("Yu", k, 0);
    w.c->setSolverWarmStart(p, d);
    for (auto &v : p) v = 0;
    for (auto &v : d) v = 0;
  }
  reads(w);
  auto answers1 = [&](const char *R) { // what was handed out after the first solve
    w.solverAnswers("X1", "Y1", "O1");
    w.answer(r1, R);
    for (int k = 0; k <= ph; k++) for (int i = 0; i < W::nx; i++) sa_eq(&q1.state(k, i), OS.x[W::sI(k, i)], "C07.sequence", k, i);
    for (int k = 0; k <= ph; k++) for (int i = 0; i < W::nu; i++) sa_eq(&q1.input(k, i), OS.x[W::sI(k < ph ? k + 1 : ph, W::nx + i)], "C07.sequence", k, 100 + i);
    for (int k = 0; k < (int)p1.size(); k++) sa_eq(&p1[k], OS.x[k], "C11.iterate", k, 0);
    for (int k = 0; k < (int)d1.size(); k++) sa_eq(&d1[k], OS.y[k], "C11.iterate", k, 1);
  };
  w.solverAnswers("X2", "Y2", "O2");
  auto r2 = w.solve("x1", "u1");
  w.all();
  w.warmed("Xu", "Yu", "C11.warm");
  w.sequence(w.c->getOptimalSequence(), "C07.sequence");
  answers1("C32.snapshot");
  reads(w);
  w.solverAnswers("X3", "Y3", "O3");
  w.solve("x2", "u2");
  w.warmed("X2", "Y2", "C11.warm");
  w.all();
  reads(w);
  w.answer(w.c->getLastResult(), "C32.reading");
  w.sequence(w.c->getOptimalSequence(), "C32.reading");
  w.lastIterate("X3", "Y3", "C32.reading");
  sa_ieq(w.c->getExecutionStats().numberOfSolutions, 4, "C32.reading", -1, 0);
  w.solverAnswers("X2", "Y2", "O2");
  w.answer(r2, "C32.snapshot");
  answers1("C32.snapshot");
  w.destroy();
}
// C26: counts per status
ENTRY(e_stats) {
  sa_generic(1);
  W w;
  w.create();
  w.everything();
  const char *R = "C26.linear";
  auto run = [&](long long st) { w.solverAnswers("X", "Y", "O", st); w.solve("x0", "u0"); };
  for (int round = 0; round < 2; round++) {
    run(OSQP_SOLVED); run(OSQP_PRIMAL_INFEASIBLE); run(OSQP_SOLVED); run(OSQP_MAX_ITER_REACHED); run(OSQP_SOLVED_INACCURATE); run(OSQP_NON_CVX);
    auto s = w.c->getExecutionStats();
    sa_ieq(s.numberOfSolutions, 6, R, round, 0);
    sa_ieq(s.solutionsStates[mpc::SUCCESS], 3, R, round, 1);
    sa_ieq(s.solutionsStates[mpc::INFEASIBLE], 1, R, round, 2);
    sa_ieq(s.solutionsStates[mpc::MAX_ITERATION], 1, R, round, 3);
    sa_ieq(s.solutionsStates[mpc::ERROR], 1, R, round, 4);
    sa_ieq(s.solutionsStates[mpc::UNKNOWN], 0, R, round, 5);
    w.c->resetStats();
    sa_ieq(w.c->getExecutionStats().numberOfSolutions, 0, R, round, 6);
    sa_ieq(w.c->getExecutionStats().solutionsStates.size(), 0, R, round, 7);
  }
  w.destroy();
}

// ---------------------------------------------------------------- C27 all output goes through the logger
extern std::ostream sinkA, sinkB, sinkC; // some streams
static std::ostream *sink(int k) { return k == 0 ? &sinkA : k == 1 ? &sinkB : &sinkC; }
#define QUIET(name) \
  ENTRY(name##_deep) { mpc::Logger::instance().setStream(sink(0)).setLevel(mpc::Logger::DEEP); name##_body(); sa_stream_only(sink(0), "C27.stray"); } \
  ENTRY(name##_none) { mpc::Logger::instance().setStream(sink(0)).setLevel(mpc::Logger::NONE); name##_body(); sa_ieq(sa_stream_count(sink(0)), 0, "C27.silent", 0, 0); sa_stream_only(sink(0), "C27.stray"); }
QUIET(e_full)
QUIET(e_setters)
QUIET(e_outcomes)
QUIET(e_alloc)
QUIET(e_params)
QUIET(e_warm)
QUIET(e_slicing)
QUIET(e_stats)
ENTRY(e_logger) {
  auto &l = mpc::Logger::instance();
  l.setStream(sink(0));
  W w;
  w.create();
  const mpc::Logger::log_level lv[] = {mpc::Logger::DEEP, mpc::Logger::NORMAL, mpc::Logger::ALERT, mpc::Logger::NONE};
  int n[3] = {}, at = 0;
  for (int k = 0; k < 4; k++) {
    w.c->setLoggerLevel(lv[k]);
    const mpc::Logger::log_type ty[] = {mpc::Logger::DETAIL, mpc::Logger::INFO, mpc::Logger::ERROR};
    for (int t = 0; t < 3; t++) {
      l.log(ty[t]) << "zq" << t << std::endl;
      n[t] += k < 3 && t >= k;
      at = n[0] + n[1] + n[2];
      sa_ieq(sa_stream_text(sink(0), "zq"), at, "C27.level", k, t);
    }
  }
  w.c->setLoggerLevel(mpc::Logger::NORMAL);
  w.c->setLoggerPrefix("abc");
  l.log(mpc::Logger::ERROR) << "xx" << std::endl;
  sa_ieq(sa_stream_text(sink(0), "[MPC++ abc] xx\n"), 1, "C27.level", 9, 0);
  w.destroy();
  l.log(mpc::Logger::ERROR) << "yy" << std::endl;
  sa_ieq(sa_stream_text(sink(0), "[MPC++ abc] yy\n"), 1, "C27.level", 9, 1);
  sa_stream_only(sink(0), "C27.stray");
}
