// Witnesses for the parts both controllers share: statistics, logger, size
// arithmetic, integration and discretization.
#include <cmath>
#include <map>
#include <sstream>
#include <mpc/Dim.hpp>
#include <mpc/Integrator.hpp>
#include <mpc/Logger.hpp>
#include <mpc/Profiler.hpp>
#include <mpc/Types.hpp>
#include <mpc/Utils.hpp>
#include "sa.h"
#define ENTRY(n) extern "C" void n()

extern std::ostream sinkA, sinkB, sinkC; // some streams
static std::ostream *sink(int k) { return k == 0 ? &sinkA : k == 1 ? &sinkB : &sinkC; }
// ---------------------------------------------------------------- C26 statistics
// The clock is an unknown that only moves forward.
static const char *DT[] = {"d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15"};
static long tick = 0;
static int reads = 0;
static long elapsed() {
  tick += sa_int(DT[reads++]);
  return tick;
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(elapsed())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(elapsed())); }
} } }

template <int Tnu> static mpc::Result<Tnu> ended(mpc::ResultStatus s) {
  mpc::Result<Tnu> r;
  r.status = s;
  return r;
}
template <int N> static void statistics(const char *R, mpc::Profiler &p, const mpc::ResultStatus (&st)[N]) {
  sa_small(1e-30); // durations are small numbers of seconds
  double t[N];
  for (int i = 0; i < N; i++) {
    p.solutionStart();
    int k = reads;
    auto d = p.template solutionEnd<2>(ended<2>(st[i]));
    sa_ieq(reads, k + 1, "C26.clock", N, i); // the time is taken exactly once at either end
    t[i] = (double)sa_int(DT[k]) / 1e9;
    sa_eq_tol((double *)&d, t[i], "C26.elapsed", N, i, 1e-9);
    const mpc::SolutionStats &s = p.getStats();
    double tot = 0, mn = t[0], mx = t[0], var = 0;
    for (int j = 0; j <= i; j++) {
      tot += t[j];
      mn = t[j] < mn ? t[j] : mn;
      mx = t[j] > mx ? t[j] : mx;
    }
    double avg = tot / (i + 1);
    for (int j = 0; j <= i; j++) var += (t[j] - avg) * (t[j] - avg);
    double sd = std::sqrt(var / (i + 1));
    double got[5] = {s.minSolutionTime.count(), s.maxSolutionTime.count(), s.totalSolutionTime.count(), s.averageSolutionTime.count(), s.standardDeviation};
    sa_eq_tol(&got[0], mn, "C26.min", N, i, 1e-9);
    sa_eq_tol(&got[1], mx, "C26.max", N, i, 1e-9);
    sa_eq_tol(&got[2], tot, "C26.total", N, i, 1e-9);
    sa_eq_tol(&got[3], avg, "C26.average", N, i, 1e-9);
    sa_eq_tol(&got[4], sd, "C26.deviation", N, i, 1e-7);
    sa_ieq(s.numberOfSolutions, i + 1, "C26.count", N, i);
    int all = 0;
    for (int q = 0; q < 5; q++) {
      int want = 0;
      for (int j = 0; j <= i; j++) want += st[j] == q;
      all += want;
      auto it = s.solutionsStates.find((mpc::ResultStatus)q);
      sa_ieq(it == s.solutionsStates.end() ? 0 : it->second, want, "C26.perstatus", i, q);
    }
    int sum = 0;
    for (auto &e : s.solutionsStates) sum += e.second;
    sa_ieq(sum, all, "C26.perstatus", i, 9);
  }
  (void)R;
  sa_small(1);
}
ENTRY(e_profiler) {
  using enum mpc::ResultStatus;
  mpc::Profiler p;
  sa_ieq(p.getStats().numberOfSolutions, 0, "C26.count", 0, 0);
  sa_ieq(p.getStats().solutionsStates.size(), 0, "C26.perstatus", 0, 0);
  statistics("C26.", p, {SUCCESS, ERROR, SUCCESS});
  p.reset();
  sa_ieq(p.getStats().numberOfSolutions, 0, "C26.reset", 0, 0);
  sa_ieq(p.getStats().solutionsStates.size(), 0, "C26.reset", 0, 1);
  double z[3] = {p.getStats().totalSolutionTime.count(), p.getStats().averageSolutionTime.count(), p.getStats().standardDeviation};
  for (int i = 0; i < 3; i++) sa_eq(&z[i], 0, "C26.reset", 1, i);
  // after a reset the statistics start over, whatever was recorded before
  statistics("C26.", p, {INFEASIBLE, MAX_ITERATION});
  // two profilers do not share anything
  mpc::Profiler q;
  statistics("C26.", q, {UNKNOWN});
  sa_ieq(p.getStats().numberOfSolutions, 2, "C26.count", 3, 0);
  // a copy taken earlier does not move
  mpc::SolutionStats copy = q.getStats();
  q.solutionStart();
  q.template solutionEnd<2>(ended<2>(SUCCESS));
  sa_ieq(copy.numberOfSolutions, 1, "C26.count", 4, 0);
  sa_ieq(q.getStats().numberOfSolutions, 2, "C26.count", 4, 1);
}
ENTRY(e_profiler4) {
  using enum mpc::ResultStatus;
  mpc::Profiler p;
  statistics("C26.", p, {SUCCESS, SUCCESS, UNKNOWN, SUCCESS, MAX_ITERATION});
}
ENTRY(e_stats_text) { // the printed summary shows the statistics
  mpc::SolutionStats s;
  using sec = std::chrono::duration<double>;
  s.minSolutionTime = sec(0.25); s.maxSolutionTime = sec(4); s.averageSolutionTime = sec(1.75); s.totalSolutionTime = sec(14);
  s.standardDeviation = 0.375; s.numberOfSolutions = 8;
  s.solutionsStates[mpc::SUCCESS] = 5; s.solutionsStates[mpc::ERROR] = 2; s.solutionsStates[mpc::INFEASIBLE] = 1;
  std::ostream *o = sink(0);
  *o << s;
  const char *want[] = {"min: 0.25 s", "max: 4 s", "avg: 1.75 s", "std: 0.375 s", "tot: 14 s", "num: 8\n", "SUCCESS: 62.5%", "ERROR: 25%", "INFEASIBLE: 12.5%"};
  for (int i = 0; i < 9; i++) sa_ieq(sa_stream_text(o, want[i]), 1, "C26.printed", i, 0);
  sa_ieq(sa_stream_text(o, "MAX_ITERATION"), 0, "C26.printed", 9, 0);
}
ENTRY(e_status_names) {
  static const char *want[] = {"SUCCESS", "MAX_ITERATION", "INFEASIBLE", "ERROR", "UNKNOWN"};
  const mpc::ResultStatus v[] = {mpc::SUCCESS, mpc::MAX_ITERATION, mpc::INFEASIBLE, mpc::ERROR, mpc::UNKNOWN};
  for (int i = 0; i < 5; i++) sa_true(mpc::SolutionStats::resultStatusToString(v[i]) == want[i], "C26.name", i, 0);
}

// ---------------------------------------------------------------- C27 logger
using mpc::Logger;
static const Logger::log_type TY[] = {Logger::DETAIL, Logger::INFO, Logger::ERROR};
static const Logger::log_level LV[] = {Logger::DEEP, Logger::NORMAL, Logger::ALERT, Logger::NONE};
// rank of the type against the threshold as documented
static bool passes(int ty, int lv) { return lv == 3 ? false : ty >= lv; }
// every message carries its own number so that each one is accounted for
template <class... A> static void say(int ty, A... a) {
  auto &l = Logger::instance();
  (l.log(TY[ty]) << ... << a) << std::endl;
}
ENTRY(e_logger) {
  auto &l = Logger::instance();
  std::ostream *o = sink(0);
  l.setStream(o);
  // every type against every level, in both orders, so that no message depends on the one before
  int expect = 0;
  for (int lv = 0; lv < 4; lv++) {
    l.setLevel(LV[lv]);
    for (int ty = 0; ty < 3; ty++) {
      say(ty, "alpha");
      expect += passes(ty, lv);
      sa_ieq(sa_stream_text(o, "[MPC++] alpha\n"), expect, "C27.threshold", lv, ty);
    }
    for (int ty = 2; ty >= 0; ty--) {
      say(ty, "alpha");
      expect += passes(ty, lv);
      sa_ieq(sa_stream_text(o, "[MPC++] alpha\n"), expect, "C27.threshold", lv, 3 + ty);
    }
  }
  sa_ieq(sa_stream_text(o, "alpha"), expect, "C27.threshold", 9, 0);
  sa_ieq(sa_stream_text(o, "[MPC++"), expect, "C27.threshold", 9, 1);
  sa_ieq(sa_stream_text(o, "\n"), expect, "C27.threshold", 9, 2);
}
ENTRY(e_logger_values) { // everything streamed reaches the output, of whatever type and in order
  auto &l = Logger::instance();
  std::ostream *o = sink(0);
  l.setStream(o);
  l.setLevel(Logger::DEEP);
  std::string s = "str";
  say(1, "a=", 41, " b=", 2u, " c=", s, '!', " d=");
  sa_ieq(sa_stream_text(o, "[MPC++] a=41 b=2 c=str! d=\n"), 1, "C27.content", 0, 0);
  l.setLevel(Logger::NONE);
  int n = sa_stream_count(o);
  say(2, "a=", 41, 1.5, s, 'c');
  sa_ieq(sa_stream_count(o), n, "C27.content", 1, 0);
}
ENTRY(e_logger_config) { // prefix, stream and reset act on later messages only
  auto &l = Logger::instance();
  std::ostream *o = sink(0), *q = sink(1), *r = sink(2);
  // default: normal level, no prefix
  l.setStream(o);
  say(0, "one");
  sa_ieq(sa_stream_count(o), 0, "C27.default", 0, 0);
  say(1, "two");
  sa_ieq(sa_stream_text(o, "[MPC++] two\n"), 1, "C27.default", 0, 1);
  l.setPrefix("first");
  say(1, "three");
  sa_ieq(sa_stream_text(o, "[MPC++ first] three\n"), 1, "C27.prefix", 0, 0);
  std::string p = "second";
  l.setPrefix(p);
  p = "changed";
  say(2, "four");
  sa_ieq(sa_stream_text(o, "[MPC++ second] four\n"), 1, "C27.prefix", 0, 1);
  int n = sa_stream_count(o);
  l.setStream(q);
  say(2, "five");
  sa_ieq(sa_stream_count(o), n, "C27.stream", 0, 0);
  sa_ieq(sa_stream_text(q, "[MPC++ second] five\n"), 1, "C27.stream", 0, 1);
  sa_ieq(sa_stream_count(r), 0, "C27.stream", 0, 2);
  l.setLevel(Logger::NONE);
  int m = sa_stream_count(q);
  say(2, "six");
  sa_ieq(sa_stream_count(q), m, "C27.threshold", 1, 0);
  Logger &same = l.reset();
  sa_true(&same == &l, "C27.reset", 0, 0);
  say(0, "seven");
  sa_ieq(sa_stream_count(q), m, "C27.reset", 0, 1);
  say(1, "eight");
  sa_ieq(sa_stream_text(q, "[MPC++] eight\n"), 1, "C27.reset", 0, 2);
  l.setPrefix("again");
  l.setPrefix("");
  say(1, "nine");
  sa_ieq(sa_stream_text(q, "[MPC++] nine\n"), 1, "C27.prefix", 1, 0);
  sa_ieq(sa_stream_count(o), n, "C27.stream", 1, 0);
  l.setLevel(Logger::DEEP);
  l.setStream(r);
  say(0, "ten");
  sa_ieq(sa_stream_text(r, "[MPC++] ten\n"), 1, "C27.stream", 1, 1);
  // there is one logger
  sa_true(&Logger::instance() == &l, "C27.single", 0, 0);
}
ENTRY(e_logger_split) { // a statement split over several calls keeps its message's type
  auto &l = Logger::instance();
  std::ostream *o = sink(0);
  l.setStream(o);
  l.setLevel(Logger::ALERT);
  auto &m = l.log(Logger::ERROR);
  m << "x";
  m << "y" << std::endl;
  sa_ieq(sa_stream_text(o, "[MPC++] xy\n"), 1, "C27.content", 2, 0);
  auto &k = l.log(Logger::INFO);
  k << "z";
  k << std::endl;
  sa_ieq(sa_stream_text(o, "z"), 0, "C27.content", 2, 1);
  sa_ieq(sa_stream_text(o, "\n"), 1, "C27.content", 2, 2);
}

// ---------------------------------------------------------------- C29 helpers
template <unsigned N> static mpc::cvec<N> field(double t, const mpc::cvec<N> &x) {
  double a[N + 1];
  a[0] = t;
  for (unsigned i = 0; i < N; i++) a[i + 1] = x(i);
  mpc::cvec<N> r;
  for (unsigned i = 0; i < N; i++) r(i) = sa_fun("field", i, a, N + 1);
  return r;
}
template <unsigned N> static void integrate(int steps, int how) {
  mpc::RK4<N> rk([](double t, const mpc::cvec<N> &x) { return field<N>(t, x); });
  mpc::cvec<N> x, y;
  for (unsigned i = 0; i < N; i++) y(i) = x(i) = sa_real("x", i, 0);
  double t = sa_real("t", 0, 0), h = sa_real("h", 0, 0), t0 = t;
  mpc::cvec<N> got = how ? rk.run(t, x, h, steps) : rk.run(t, x, h);
  for (int s = 0; s < steps; s++) {
    mpc::cvec<N> k[4], p;
    k[0] = field<N>(t, y);
    for (unsigned i = 0; i < N; i++) p(i) = y(i) + h / 2 * k[0](i);
    k[1] = field<N>(t + h / 2, p);
    for (unsigned i = 0; i < N; i++) p(i) = y(i) + h / 2 * k[1](i);
    k[2] = field<N>(t + h / 2, p);
    for (unsigned i = 0; i < N; i++) p(i) = y(i) + h * k[2](i);
    k[3] = field<N>(t + h, p);
    for (unsigned i = 0; i < N; i++) y(i) += h / 6 * (k[0](i) + 2 * k[1](i) + 2 * k[2](i) + k[3](i));
    t += h;
  }
  for (unsigned i = 0; i < N; i++) {
    sa_eq_tol(&got(i), y(i), "C29.rk4", steps, i, 1e-7);
    sa_veq(x(i), sa_real("x", i, 0), "C29.rk4", steps, 10 + i); // the argument is not touched
  }
  // the integrator carries nothing over from one run to the next
  mpc::cvec<N> again = rk.run(t0, x, h, steps);
  for (unsigned i = 0; i < N; i++) sa_eq_tol(&again(i), y(i), "C29.rk4", steps, 20 + i, 1e-7);
}
ENTRY(e_rk4) {
  integrate<1>(1, 0);
  integrate<2>(2, 1);
  integrate<1>(3, 1);
  integrate<3>(1, 1);
}
ENTRY(e_rk4zero) { integrate<2>(0, 1); }

template <int R, int C> static mpc::mat<R, C> sym(const char *n) {
  mpc::mat<R, C> m;
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i, j) = sa_real(n, i, j);
  return m;
}
// the exponential of the augmented system [A B; 0 0]*Ts, element by element
template <int NX, int NW> static double expo(const mpc::mat<NX, NX> &A, const mpc::mat<NX, NW> &B, double ts, int i, int j) {
  constexpr int n = NX + NW;
  double a[n * n];
  for (int r = 0; r < n; r++)
    for (int c = 0; c < n; c++)
      a[r * n + c] = r >= NX ? 0 : (c < NX ? A(r, c) : B(r, c - NX)) * ts;
  return sa_fun("expm", i * n + j, a, n * n);
}
template <int nx, int nu, int nd, int ny> static void discretize() {
  auto A = sym<nx, nx>("A");
  auto B = sym<nx, nu>("B");
  auto E = sym<nx, nd>("E");
  auto C = sym<ny, nx>("C");
  auto D = sym<ny, nu>("D");
  mpc::mat<nx, nu + nd> BE;
  for (int i = 0; i < nx; i++) {
    for (int j = 0; j < nu; j++) BE(i, j) = B(i, j);
    for (int j = 0; j < nd; j++) BE(i, nu + j) = E(i, j);
  }
  double ts = sa_real("ts", 0, 0);
  auto Ad = sym<nx, nx>("old"), Ad2 = Ad, Ad3 = Ad;
  auto Bd = sym<nx, nu>("old"), Bd2 = Bd, Bd3 = Bd;
  auto Ed = sym<nx, nd>("old");
  auto Cd = sym<ny, nx>("old");
  auto Dd = sym<ny, nu>("old");
  mpc::discretization<nx, nu>(A, B, ts, Ad, Bd);
  mpc::discretization<nx, nu, nd>(A, B, E, ts, Ad2, Bd2, Ed);
  mpc::discretization<nx, nu, ny>(A, B, C, D, ts, Ad3, Bd3, Cd, Dd);
  for (int i = 0; i < nx; i++) {
    for (int j = 0; j < nx; j++) {
      double e = expo<nx, nu>(A, B, ts, i, j);
      sa_eq_tol(&Ad(i, j), e, "C29.Ad", i, j, 1e-9);
      sa_eq_tol(&Ad2(i, j), (expo<nx, nu + nd>(A, BE, ts, i, j)), "C29.Ad", 10 + i, j, 1e-9);
      sa_eq_tol(&Ad3(i, j), e, "C29.Ad", 20 + i, j, 1e-9);
    }
    for (int j = 0; j < nu; j++) {
      double e = expo<nx, nu>(A, B, ts, i, nx + j);
      sa_eq_tol(&Bd(i, j), e, "C29.Bd", i, j, 1e-9);
      sa_eq_tol(&Bd2(i, j), (expo<nx, nu + nd>(A, BE, ts, i, nx + j)), "C29.Bd", 10 + i, j, 1e-9);
      sa_eq_tol(&Bd3(i, j), e, "C29.Bd", 20 + i, j, 1e-9);
    }
    for (int j = 0; j < nd; j++) sa_eq_tol(&Ed(i, j), (expo<nx, nu + nd>(A, BE, ts, i, nx + nu + j)), "C29.Bed", i, j, 1e-9);
  }
  for (int i = 0; i < ny; i++) {
    for (int j = 0; j < nx; j++) sa_eq(&Cd(i, j), C(i, j), "C29.Cd", i, j);
    for (int j = 0; j < nu; j++) sa_eq(&Dd(i, j), D(i, j), "C29.Dd", i, j);
  }
}
ENTRY(e_discretization) {
  discretize<2, 1, 1, 1>();
  discretize<1, 2, 1, 3>();
  discretize<2, 3, 2, 2>();
  discretize<3, 1, 2, 1>();
}
