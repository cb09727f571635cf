// Uses every public operation of both controllers with compile-time and with
// run-time sizes.  Only compiled: a program that fails to build is the violation.
#include <type_traits>
#include <mpc/LMPC.hpp>
#include <mpc/NLMPC.hpp>
#include <mpc/Integrator.hpp>
#include <mpc/Utils.hpp>
using namespace mpc;
template <class V> V vec(int n) { V v(n); v.setOnes(); return v; }
template <class M> M matr(int r, int c) { M m(r, c); m.setOnes(); return m; }
// one owner per solver
template <class C> constexpr bool singleOwner = !std::is_copy_constructible_v<C> && !std::is_copy_assignable_v<C>;

template <class C, int nx, int nu, int nd, int ny, int ph, int ch> void linear(C &c, int x, int u, int d, int y, int p, int h) {
  using X = cvec<nx>; using U = cvec<nu>; using D = cvec<nd>; using Y = cvec<ny>;
  static_assert(singleOwner<C>);
  const HorizonSlice all = HorizonSlice::all(), one(0, 1);
  const auto X1 = vec<X>(x), X2 = X1; const auto U1 = vec<U>(u), U2 = U1; const auto Y1 = vec<Y>(y), Y2 = Y1; const auto D1 = vec<D>(d);
  const auto XM = matr<mat<nx, ph>>(x, p); const auto UM = matr<mat<nu, ch>>(u, h); const auto YM = matr<mat<ny, ph>>(y, p); const auto UP = matr<mat<nu, ph>>(u, p);
  const auto DM = matr<mat<nd, ph>>(d, p);
  LParameters params;
  params.alpha = 1; params.rho = 1; params.eps_rel = 1; params.eps_abs = 1; params.eps_prim_inf = 1; params.eps_dual_inf = 1;
  params.verbose = false; params.adaptive_rho = true; params.polish = true; params.maximum_iteration = 1; params.time_limit = 1; params.enable_warm_start = true;
  c.setOptimizerParameters(params);
  c.setInputScale(U1);
  c.setStateScale(X1);
  bool ok = c.setDiscretizationSamplingTime(0.1);
  ok &= c.setLoggerLevel(Logger::log_level::NORMAL);
  ok &= c.setLoggerPrefix("p");
  ok &= c.setStateBounds(XM, XM); ok &= c.setStateBounds(X1, X2, all); ok &= c.setStateBounds(X1, X2, one);
  ok &= c.setInputBounds(UM, UM); ok &= c.setInputBounds(U1, U2, all); ok &= c.setInputBounds(U1, U2, {0, 1});
  ok &= c.setOutputBounds(YM, YM); ok &= c.setOutputBounds(Y1, Y2, all);
  ok &= c.setConstraints(0, X1, U1, Y1, X2, U2, Y2);
  ok &= c.setScalarConstraint(-1.0, 1.0, X1, U1, all);
  ok &= c.setScalarConstraint(0u, -1.0, 1.0, X1, U1);
  ok &= c.setObjectiveWeights(YM, UP, UP);
  ok &= c.setObjectiveWeights(Y1, U1, U2, all);
  ok &= c.setStateSpaceModel(matr<mat<nx, nx>>(x, x), matr<mat<nx, nu>>(x, u), matr<mat<ny, nx>>(y, x));
  ok &= c.setDisturbances(matr<mat<nx, nd>>(x, d), matr<mat<ny, nd>>(y, d));
  ok &= c.setExogenousInputs(DM);
  ok &= c.setExogenousInputs(D1, all);
  ok &= c.setReferences(YM, UP, UP);
  ok &= c.setReferences(Y1, U1, U2, all);
  Result<nu> r = c.optimize(X1, U1);
  Result<nu> l = c.getLastResult();
  OptSequence<nx, ny, nu, (ph == Eigen::Dynamic ? ph : ph + 1)> s = c.getOptimalSequence();
  std::vector<double> wp = c.getSolverWarmStartPrimal(), wd = c.getSolverWarmStartDual();
  c.setSolverWarmStart(wp, wd);
  const SolutionStats &st = c.getExecutionStats();
  std::cout << st << r.cost << l.is_feasible << l.solver_status << l.solver_status_msg << (l.status == ResultStatus::SUCCESS) << r.cmd << s.state << s.input << s.output << ok;
  c.resetStats();
}
template <class C, int nx, int nu, int ny, int ph, int ch, int ni, int ne> void nonlinear(C &c, int x, int u, int y, int p, int h) {
  using X = cvec<nx>; using U = cvec<nu>; using Y = cvec<ny>;
  constexpr int p1 = ph == Eigen::Dynamic ? ph : ph + 1;
  static_assert(singleOwner<C>);
  const HorizonSlice all = HorizonSlice::all(), one(0, 1);
  const auto X1 = vec<X>(x), X2 = X1; const auto U1 = vec<U>(u), U2 = U1; const auto Y1 = vec<Y>(y), Y2 = Y1;
  const auto XM = matr<mat<nx, ph>>(x, p); const auto UM = matr<mat<nu, ch>>(u, h); const auto YM = matr<mat<ny, ph>>(y, p);
  NLParameters params;
  params.relative_ftol = 1; params.relative_xtol = 1; params.absolute_ftol = 1; params.absolute_xtol = 1; params.hard_constraints = false;
  params.maximum_iteration = 1; params.time_limit = 1; params.enable_warm_start = true;
  c.setOptimizerParameters(params);
  bool ok = c.setDiscretizationSamplingTime(0.1);
  c.setInputScale(U1);
  c.setStateScale(X1);
  ok &= c.setLoggerLevel(Logger::log_level::NORMAL);
  ok &= c.setLoggerPrefix("p");
  ok &= c.setObjectiveFunction([](const mat<p1, nx> &, const mat<p1, ny> &, const mat<p1, nu> &, const double &) -> double { return 0; });
  ok &= c.setStateSpaceFunction([](cvec<nx> &d, const cvec<nx> &a, const cvec<nu> &, const unsigned int &) { d = a; });
  ok &= c.setStateSpaceFunction([](cvec<nx> &d, const cvec<nx> &a, const cvec<nu> &, const unsigned int &) { d = a; }, 1e-4);
  ok &= c.setOutputFunction([](cvec<ny> &o, const cvec<nx> &, const cvec<nu> &, const unsigned int &) { o.setZero(); });
  ok &= c.setIneqConFunction([](cvec<ni> &v, const mat<p1, nx> &, const mat<p1, ny> &, const mat<p1, nu> &, const double &) { v.setZero(); });
  ok &= c.setIneqConFunction([](cvec<ni> &v, const mat<p1, nx> &, const mat<p1, ny> &, const mat<p1, nu> &, const double &) { v.setZero(); }, 1e-4);
  ok &= c.setEqConFunction([](cvec<ne> &v, const mat<p1, nx> &, const mat<p1, nu> &) { v.setZero(); });
  ok &= c.setEqConFunction([](cvec<ne> &v, const mat<p1, nx> &, const mat<p1, nu> &) { v.setZero(); }, 1e-4);
  ok &= c.setStateBounds(XM, XM); ok &= c.setStateBounds(X1, X2, all); ok &= c.setStateBounds(X1, X2, one);
  ok &= c.setInputBounds(UM, UM); ok &= c.setInputBounds(U1, U2, all); ok &= c.setInputBounds(U1, U2, {0, 1});
  ok &= c.setOutputBounds(YM, YM); ok &= c.setOutputBounds(Y1, Y2, all);
  Result<nu> r = c.optimize(X1, U1);
  Result<nu> l = c.getLastResult();
  OptSequence<nx, ny, nu, p1> s = c.getOptimalSequence();
  const SolutionStats &st = c.getExecutionStats();
  std::cout << st << r.cost << l.is_feasible << l.solver_status << l.solver_status_msg << (l.status == ResultStatus::SUCCESS) << r.cmd << s.state << s.input << s.output << ok;
  c.resetStats();
}
constexpr int D = Eigen::Dynamic;
void use() {
  LMPC<3, 2, 1, 2, 4, 2> a; linear<decltype(a), 3, 2, 1, 2, 4, 2>(a, 3, 2, 1, 2, 4, 2);
  LMPC<1, 1, 1, 1, 1, 1> b; linear<decltype(b), 1, 1, 1, 1, 1, 1>(b, 1, 1, 1, 1, 1, 1);
  LMPC<> c(3, 2, 1, 2, 4, 2); linear<decltype(c), D, D, D, D, D, D>(c, 3, 2, 1, 2, 4, 2);
  NLMPC<3, 2, 2, 4, 2, 2, 1> e; nonlinear<decltype(e), 3, 2, 2, 4, 2, 2, 1>(e, 3, 2, 2, 4, 2);
  NLMPC<1, 1, 1, 1, 1, 1, 1> f; nonlinear<decltype(f), 1, 1, 1, 1, 1, 1, 1>(f, 1, 1, 1, 1, 1);
  NLMPC<> g(3, 2, 2, 4, 2, 2, 1); nonlinear<decltype(g), D, D, D, D, D, D, D>(g, 3, 2, 2, 4, 2);
  // no user constraint at all
  NLMPC<2, 1, 1, 3, 2, 0, 0> n; NLMPC<> m(2, 1, 1, 3, 2, 0, 0);
  n.setObjectiveFunction([](const mat<4, 2> &, const mat<4, 1> &, const mat<4, 1> &, const double &) { return 0.0; });
  (void)n.optimize(cvec<2>::Zero(), cvec<1>::Zero());
  (void)m.optimize(cvec<>::Zero(2), cvec<>::Zero(1));
  // no disturbance
  LMPC<2, 1, 0, 1, 3, 2> z; (void)z.optimize(cvec<2>::Zero(), cvec<1>::Zero());
  // through the common interface
  IMPC<MPCSize(3, 2, 1, 2, 4, 2, 0, 0)> &i = a;
  (void)i.optimize(cvec<3>::Zero(), cvec<2>::Zero());
  IMPC<MPCSize(D, D, 0, D, D, D, D, D)> &j = g;
  (void)j.optimize(cvec<>::Zero(3), cvec<>::Zero(2));
}
// every member, used or not
template class mpc::LMPC<3, 2, 1, 2, 4, 2>;
template class mpc::LMPC<>;
template class mpc::NLMPC<3, 2, 2, 4, 2, 2, 1>;
template class mpc::NLMPC<>;
