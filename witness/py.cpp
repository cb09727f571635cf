// C31: what the Python extension module exports.  The initialisation of the module
// is analysed; pybind11 is a stand-in that hands every registration to this file.
#define SA_MAIN
#include <mpc/LMPC.hpp>
#include "osqp_stub.h"
#include "nlmpc.h"
#include <pybind11/pybind11.h>
using NL_ = mpc::NLMPC<>;
using LM_ = mpc::LMPC<>;
using mpc::HorizonSlice;
using VX = Eigen::VectorXd;
using MX = Eigen::MatrixXd;

static bool eqs(const char *a, const char *b) {
  for (; *a && *a == *b; a++, b++) {}
  return *a == *b;
}
// ---- every registration, to find the unreachable ones
template <class... A> struct Sig { static inline char tag; };
struct Rec { const void *cls; char name[48]; const void *sig; };
static Rec recs[256];
static int nrec = 0;
static void record(const void *cls, const char *name, const void *sig) {
  bool fresh = true;
  for (int k = 0; k < nrec; k++)
    if (recs[k].cls == cls && eqs(recs[k].name, name) && recs[k].sig == sig) fresh = false;
  sa_true(fresh, "C31.unreachable", nrec, 0); // an identical overload is registered before
  Rec &r = recs[nrec++];
  r.cls = cls;
  r.sig = sig;
  for (int i = 0; i < 47 && (r.name[i] = name[i]); i++) {}
}
static int registered(const void *cls, const char *name) {
  int n = 0;
  for (int k = 0; k < nrec; k++) n += recs[k].cls == cls && eqs(recs[k].name, name);
  return n;
}
template <class T> const void *key() { return &Sig<T>::tag; }
// how an argument looks from Python
template <class A> using Seen = std::remove_cv_t<std::remove_reference_t<A>>;

// ---- the operations a name stands for
#define OPS_COMMON(T) \
  X(T, optimize) X(T, getLastResult) X(T, getOptimalSequence) X(T, getExecutionStats) X(T, resetStats) X(T, setLoggerLevel) X(T, setLoggerPrefix) X(T, setOptimizerParameters) \
  X(T, setInputScale) X(T, setStateScale) X(T, setDiscretizationSamplingTime)                                                                                                  \
  O(T, setStateBounds, const MX &, const MX &) O(T, setStateBounds, const VX &, const VX &, const HorizonSlice &)                                                               \
  O(T, setInputBounds, const MX &, const MX &) O(T, setInputBounds, const VX &, const VX &, const HorizonSlice &)                                                               \
  O(T, setOutputBounds, const MX &, const MX &) O(T, setOutputBounds, const VX &, const VX &, const HorizonSlice &)
template <class C> struct Ops;
#define X(T, n) f(#n, &T::n);
#define O(T, n, ...) f(#n, pybind11::overload_cast<__VA_ARGS__>(&T::n));
template <> struct Ops<NL_> {
  template <class F> static void each(F f) { OPS_COMMON(NL_) X(NL_, setObjectiveFunction) X(NL_, setStateSpaceFunction) X(NL_, setOutputFunction) X(NL_, setIneqConFunction) X(NL_, setEqConFunction) }
};
template <> struct Ops<LM_> {
  template <class F> static void each(F f) {
    OPS_COMMON(LM_)
    X(LM_, setStateSpaceModel) X(LM_, setDisturbances) X(LM_, getSolverWarmStartPrimal) X(LM_, getSolverWarmStartDual) X(LM_, setSolverWarmStart) X(LM_, setConstraints)
    O(LM_, setObjectiveWeights, const MX &, const MX &, const MX &) O(LM_, setObjectiveWeights, const VX &, const VX &, const VX &, const HorizonSlice &)
    O(LM_, setScalarConstraint, const unsigned int, const double, const double, const VX, const VX) O(LM_, setScalarConstraint, const double, const double, const VX, const VX, const HorizonSlice &)
    O(LM_, setExogenousInputs, const MX &) O(LM_, setExogenousInputs, const VX &, const HorizonSlice &)
    O(LM_, setReferences, const MX, const MX, const MX) O(LM_, setReferences, const VX, const VX, const VX, const HorizonSlice &)
  }
};
#undef X
#undef O
template <class C> struct Fields { template <class F> static void each(F) {} };
#define X(T, n) f(#n, &T::n);
using RS_ = mpc::Result<>;
template <> struct Fields<RS_> { template <class F> static void each(F f) { X(RS_, solver_status) X(RS_, solver_status_msg) X(RS_, cost) X(RS_, cmd) X(RS_, status) X(RS_, is_feasible) } };
using SS_ = mpc::SolutionStats;
template <> struct Fields<SS_> { template <class F> static void each(F f) { X(SS_, totalSolutionTime) X(SS_, numberOfSolutions) X(SS_, minSolutionTime) X(SS_, maxSolutionTime) X(SS_, averageSolutionTime) X(SS_, standardDeviation) X(SS_, solutionsStates) } };
template <> struct Fields<HorizonSlice> { template <class F> static void each(F f) { X(HorizonSlice, start) X(HorizonSlice, end) } };
template <> struct Fields<mpc::NLParameters> { using P = mpc::NLParameters; template <class F> static void each(F f) { X(P, maximum_iteration) X(P, time_limit) X(P, enable_warm_start) X(P, relative_ftol) X(P, relative_xtol) X(P, absolute_ftol) X(P, absolute_xtol) X(P, hard_constraints) } };
template <> struct Fields<mpc::LParameters> { using P = mpc::LParameters; template <class F> static void each(F f) { X(P, maximum_iteration) X(P, time_limit) X(P, enable_warm_start) X(P, alpha) X(P, rho) X(P, eps_rel) X(P, eps_abs) X(P, eps_prim_inf) X(P, eps_dual_inf) X(P, verbose) X(P, adaptive_rho) X(P, polish) } };
#undef X
template <class E> struct Values;
#define X(n) f(#n, mpc::n);
template <> struct Values<mpc::ResultStatus> { template <class F> static void each(F f) { X(SUCCESS) X(MAX_ITERATION) X(INFEASIBLE) X(ERROR) X(UNKNOWN) } };
#undef X
#define X(n) f(#n, mpc::Logger::n);
template <> struct Values<mpc::Logger::log_level> { template <class F> static void each(F f) { X(DEEP) X(NORMAL) X(ALERT) X(NONE) } };
template <> struct Values<mpc::Logger::log_type> { template <class F> static void each(F f) { X(DETAIL) X(INFO) X(ERROR) } };
#undef X

// ---- wrappers, called on a controller like Python calls them
using W = NW<true, 2, 2, 1, 3, 2, 2, 1>;
static constexpr int ph = W::ph;
static void pts(int k, double *x) { for (int i = 0; i < W::NV; i++) x[i] = sa_real(NH.pts[k], i, 0); }
template <class F> static void wrapped(F bind) {
  W w;
  w.create();
  w.everything("o", "f", "g", "i", "e");
  Also as("C31.wrapper");
  bind(w);
  w.solverAnswers("X", "O");
  NL.evals = 1; NL.order = 4; NL.point = pts;
  w.solve("x0", "u0");
  NL.evals = 0; NL.order = 0;
  w.functions(NL.e[0], false);
  w.tolerances("C31.tolerance");
  w.answer(w.c->getLastResult(), "C31.wrapper");
  w.sequence(w.c->getOptimalSequence(), "C31.wrapper");
  w.destroy();
}
static VX step(const char *n, int rows, const VX &x, const VX &u, const unsigned &k) {
  double a[W::nx + W::nu + 1];
  int p = W::pack(a, 0, x, W::nx, 1);
  p = W::pack(a, p, u, W::nu, 1);
  a[p++] = k;
  VX r(rows);
  for (int i = 0; i < rows; i++) r(i) = sa_fun(n, i, a, p);
  return r;
}
static double objective(const char *n, const MX &X, const MX &Y, const MX &U, const double &e) {
  double a[(ph + 1) * (W::nx + W::nu + W::ny) + 1];
  int k = W::pack(a, 0, X, ph + 1, W::nx); k = W::pack(a, k, Y, ph + 1, W::ny); k = W::pack(a, k, U, ph + 1, W::nu);
  a[k++] = e;
  return sa_fun(n, 0, a, k);
}
template <class F> static void wrapper(const char *name, F f) {
  if constexpr (std::is_invocable_r_v<bool, F, NL_ &, std::function<VX(const VX &, const VX &, const unsigned int &)>, double>) {
    if (eqs(name, "setStateSpaceFunction")) {
      wrapped([&](W &w) { bool r = f(*w.c, [](const VX &x, const VX &u, const unsigned &k) { return step("pf", W::nx, x, u, k); }, 0.125); sa_true(r, "C31.wrapper", -1, 0); w.ff = "pf"; w.tf = 0.125f; });
      return;
    }
  }
  if constexpr (std::is_invocable_r_v<bool, F, NL_ &, std::function<VX(const VX &, const VX &, const unsigned int &)>>) {
    if (eqs(name, "setOutputFunction")) {
      wrapped([&](W &w) { bool r = f(*w.c, [](const VX &x, const VX &u, const unsigned &k) { return step("pg", W::ny, x, u, k); }); sa_true(r, "C31.wrapper", -2, 0); w.fg = "pg"; });
      return;
    }
  }
  if constexpr (std::is_invocable_r_v<bool, F, NL_ &, std::function<double(const MX &, const MX &, const MX &, const double &)>>) {
    if (eqs(name, "setObjectiveFunction")) {
      wrapped([&](W &w) { bool r = f(*w.c, [](const MX &X, const MX &Y, const MX &U, const double &e) { return objective("po", X, Y, U, e); }); sa_true(r, "C31.wrapper", -3, 0); w.fo = "po"; });
      return;
    }
  }
  if constexpr (std::is_invocable_r_v<bool, F, NL_ &, std::function<VX(const MX &, const MX &, const MX &, const double &)>, double>) {
    if (eqs(name, "setIneqConFunction")) {
      wrapped([&](W &w) {
        bool r = f(*w.c, [](const MX &X, const MX &Y, const MX &U, const double &e) {
          double a[(ph + 1) * (W::nx + W::nu + W::ny) + 1];
          int k = W::pack(a, 0, X, ph + 1, W::nx); k = W::pack(a, k, Y, ph + 1, W::ny); k = W::pack(a, k, U, ph + 1, W::nu);
          a[k++] = e;
          VX v(W::ni);
          for (int i = 0; i < W::ni; i++) v(i) = sa_fun("pi", i, a, k);
          return v;
        }, 0.0625);
        sa_true(r, "C31.wrapper", -4, 0);
        w.fi = "pi"; w.ti = 0.0625f;
      });
      return;
    }
  }
  if constexpr (std::is_invocable_r_v<bool, F, NL_ &, std::function<VX(const MX &, const MX &)>, double>) {
    if (eqs(name, "setEqConFunction")) {
      wrapped([&](W &w) {
        bool r = f(*w.c, [](const MX &X, const MX &U) {
          double a[(ph + 1) * (W::nx + W::nu)];
          int k = W::pack(a, 0, X, ph + 1, W::nx); k = W::pack(a, k, U, ph + 1, W::nu);
          VX v(W::ne);
          for (int i = 0; i < W::ne; i++) v(i) = sa_fun("pe", i, a, k);
          return v;
        }, 0.75);
        sa_true(r, "C31.wrapper", -5, 0);
        w.fe = "pe"; w.te = 0.75f;
      });
      return;
    }
  }
  sa_reach("C31.other"); // a helper of the binding itself: nothing of the library to compare with
}
namespace sa_py {
template <class C, class R, class B, class... A> void member(const char *name, R (B::*m)(A...)) {
  static_assert(std::is_base_of_v<B, C>, "an operation of another class");
  record(key<C>(), name, &Sig<Seen<A>...>::tag);
  bool found = false, named = false;
  Ops<C>::each([&](const char *n, auto op) {
    if (!eqs(n, name)) return;
    named = true;
    if constexpr (std::is_same_v<decltype(op), decltype(m)>) found = found || op == m;
  });
  if (named) sa_true(found, "C31.operation", nrec, 0);
  else sa_reach("C31.other"); // an alias or an addition
}
template <class C, class F> struct Lambda;
template <class F, class R, class S, class... A> struct Lambda<R (F::*)(S, A...) const, F> {
  template <class C> static void go(const char *name, F f) { record(key<C>(), name, &Sig<Seen<A>...>::tag); wrapper(name, f); }
};
template <class F, class R, class S, class... A> struct Lambda<R (F::*)(S, A...), F> : Lambda<R (F::*)(S, A...) const, F> {};
template <class C, class F> void onMethod(const char *name, F f) {
  if constexpr (std::is_member_function_pointer_v<F>) member<C>(name, f);
  else if constexpr (std::is_class_v<F>) Lambda<decltype(&F::operator()), F>::template go<C>(name, f);
  else sa_reach("C31.other");
}
template <class C, class... A> void onInit() {
  record(key<C>(), "__init__", &Sig<Seen<A>...>::tag);
  if constexpr (std::is_same_v<C, NL_>) sa_ieq(sizeof...(A), 7, "C31.constructor", 0, 0);
  if constexpr (std::is_same_v<C, LM_>) sa_ieq(sizeof...(A), 6, "C31.constructor", 1, 0);
}
template <class C, class F> void onStatic(const char *name, F f) {
  record(key<C>(), name, &Sig<F>::tag);
  if constexpr (std::is_same_v<F, HorizonSlice (*)()>) {
    HorizonSlice s = f();
    sa_true(eqs(name, "all"), "C31.operation", nrec, 1);
    sa_ieq(s.start, -1, "C31.operation", nrec, 2);
    sa_ieq(s.end, -1, "C31.operation", nrec, 3);
  }
}
template <class C, class M, class B> void onField(const char *name, M B::*m, bool) {
  record(key<C>(), name, nullptr);
  bool found = false, named = false;
  Fields<C>::each([&](const char *n, auto op) {
    if (!eqs(n, name)) return;
    named = true;
    if constexpr (std::is_same_v<decltype(op), decltype(m)>) found = found || op == m;
  });
  if (named) sa_true(found, "C31.field", nrec, 0);
  else sa_reach("C31.other");
}
template <class C> void onClass(const char *name) { record(nullptr, name, nullptr); }
template <class E> void onEnum(const char *name) { record(nullptr, name, nullptr); }
template <class E> void onValue(const char *name, E v) {
  record(key<E>(), name, nullptr);
  bool found = false;
  Values<E>::each([&](const char *n, E w) { if (eqs(n, name)) found = w == v; });
  sa_true(found, "C31.value", nrec, 0);
}
template <class F> void onFunction(const char *name, F) { record(nullptr, name, &Sig<F>::tag); }
}
#include <pybind_export.cpp>

extern "C" void e_module() {
  pybind11::module_ m;
  sa_py_module(m);
  // what Python programs use stays there
  struct Need { const void *cls; const char *name; int n; };
  const void *N = key<NL_>(), *L = key<LM_>();
  const Need need[] = {
      {N, "__init__", 1}, {N, "setDiscretizationSamplingTime", 1}, {N, "setInputScale", 1}, {N, "setStateScale", 1}, {N, "setOptimizerParameters", 1}, {N, "setLoggerLevel", 1}, {N, "setLoggerPrefix", 1},
      {N, "optimize", 1}, {N, "getLastResult", 1}, {N, "getOptimalSequence", 1}, {N, "getExecutionStats", 1}, {N, "resetStats", 1}, {N, "setStateBounds", 2}, {N, "setInputBounds", 2}, {N, "setOutputBounds", 2},
      {N, "setObjectiveFunction", 1}, {N, "setStateSpaceFunction", 1}, {N, "setOutputFunction", 1}, {N, "setIneqConFunction", 1}, {N, "setEqConFunction", 1},
      {L, "__init__", 1}, {L, "setOptimizerParameters", 1}, {L, "setLoggerLevel", 1}, {L, "setLoggerPrefix", 1}, {L, "optimize", 1}, {L, "getLastResult", 1}, {L, "getOptimalSequence", 1}, {L, "getExecutionStats", 1},
      {L, "resetStats", 1}, {L, "setStateBounds", 2}, {L, "setInputBounds", 2}, {L, "setOutputBounds", 2}, {L, "setStateSpaceModel", 1}, {L, "setDisturbances", 1}, {L, "getSolverWarmStartPrimal", 1},
      {L, "getSolverWarmStartDual", 1}, {L, "setSolverWarmStart", 1}, {L, "setObjectiveWeights", 2}, {L, "setScalarConstraint", 2}, {L, "setExogenousInputs", 2}, {L, "setReferences", 2},
      {key<RS_>(), "solver_status", 1}, {key<RS_>(), "solver_status_msg", 1}, {key<RS_>(), "cost", 1}, {key<RS_>(), "cmd", 1}, {key<RS_>(), "status", 1},
      {key<SS_>(), "totalSolutionTime", 1}, {key<SS_>(), "numberOfSolutions", 1}, {key<SS_>(), "minSolutionTime", 1}, {key<SS_>(), "maxSolutionTime", 1}, {key<SS_>(), "averageSolutionTime", 1}, {key<SS_>(), "standardDeviation", 1}, {key<SS_>(), "solutionsStates", 1},
      {key<HorizonSlice>(), "__init__", 1}, {key<HorizonSlice>(), "all", 1},
  };
  int i = 0;
  for (auto &k : need) sa_true(registered(k.cls, k.name) >= k.n, "C31.exported", i++, 0);
  Values<mpc::ResultStatus>::each([&](const char *n, mpc::ResultStatus) { sa_ieq(registered(key<mpc::ResultStatus>(), n), 1, "C31.exported", i++, 1); });
  Values<mpc::Logger::log_level>::each([&](const char *n, mpc::Logger::log_level) { sa_ieq(registered(key<mpc::Logger::log_level>(), n), 1, "C31.exported", i++, 2); });
}
