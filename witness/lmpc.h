// Reference model of the linear controller's configuration and the obligations
// on the quadratic program handed to the solver.
#pragma once
#include <mpc/LMPC.hpp>
#include "osqp_stub.h"
using mpc::HorizonSlice;
static const double INF = std::numeric_limits<double>::infinity();

template <bool DYN, int nx_, int nu_, int ndu_, int ny_, int ph_, int ch_>
struct LW {
  static constexpr bool dynamic = DYN;
  static constexpr int nx = nx_, nu = nu_, nd = ndu_, ny = ny_, ph = ph_, ch = ch_;
  static constexpr int D = DYN ? -1 : 0;
  static constexpr int ns = nx + nu;
  static constexpr int NV = (ph + 1) * ns + ph * nu;
  static constexpr int NE = (ph + 1) * ns;
  static constexpr int NC = 2 * NE + (ph + 1) * ny + ph * nu + (ph + 1);
  static_assert(NV <= OSQ_N && NC <= OSQ_N, "the stand-in's arrays");
  using C = std::conditional_t<DYN, mpc::LMPC<>, mpc::LMPC<nx, nu, nd, ny, ph, ch>>;
  template <int r, int c> using Mx = std::conditional_t<DYN, mpc::mat<>, mpc::mat<r, c>>;
  template <int r> using Vx = std::conditional_t<DYN, mpc::cvec<>, mpc::cvec<r>>;

  // ---- the settings in force according to the calls made
  double A[nx][nx], B[nx][nu], Cm[ny][nx], Bd[nx][nd ? nd : 1], Dd[ny][nd ? nd : 1];
  double wy[ny][ph], wu[nu][ph], wd[nu][ph];
  double ry[ny][ph], ru[nu][ph], rd[nu][ph];
  double dm[nd ? nd : 1][ph];
  double xl[nx][ph], xh[nx][ph], yl[ny][ph], yh[ny][ph], ul[nu][ph], uh[nu][ph];
  double sl[ph], sh[ph], sX[ph][nx], sU[ph][nu];
  bool sSet[ph];
  double x0[nx], u0[nu];
  C *c = nullptr;

  LW() {
    for (int i = 0; i < nx; i++) for (int j = 0; j < nx; j++) A[i][j] = 0;
    for (int i = 0; i < nx; i++) for (int j = 0; j < nu; j++) B[i][j] = 0;
    for (int i = 0; i < ny; i++) for (int j = 0; j < nx; j++) Cm[i][j] = 0;
    for (int j = 0; j < nd; j++) {
      for (int i = 0; i < nx; i++) Bd[i][j] = 0;
      for (int i = 0; i < ny; i++) Dd[i][j] = 0;
    }
    for (int k = 0; k < ph; k++) {
      for (int i = 0; i < ny; i++) { wy[i][k] = 0; ry[i][k] = 0; yl[i][k] = -INF; yh[i][k] = INF; }
      for (int i = 0; i < nu; i++) { wu[i][k] = 0; wd[i][k] = 0; ru[i][k] = 0; rd[i][k] = 0; ul[i][k] = -INF; uh[i][k] = INF; }
      for (int i = 0; i < nx; i++) { xl[i][k] = -INF; xh[i][k] = INF; }
      for (int i = 0; i < nd; i++) dm[i][k] = 0;
      sl[k] = -INF; sh[k] = INF; sSet[k] = false;
    }
    for (int k = 0; k < ph; k++) {
      for (int i = 0; i < nx; i++) sX[k][i] = 0;
      for (int i = 0; i < nu; i++) sU[k][i] = 0;
    }
  }
  static C *make() {
    if constexpr (DYN) return new C(nx, nu, nd, ny, ph, ch);
    else return new C();
  }
  void create() { c = make(); }
  void destroy() { delete c; c = nullptr; }

  // ---- values: "0.." zeros, "1.." an identity, anything else unknown numbers
  static double num(const char *n, int i, int j) { // "#..": numbers of all magnitudes
    const double t[] = {1.1e-20, 3.3e9, -2.7e12, 0, 1.9, -1.3e-9, 4.1e15, -7.7e-5, 123456.789, -1.7, 5.9e31, -2.3e-33};
    return t[(n[1] + 5 * i + 7 * j) % 12];
  }
  static double val(const char *n, int i, int j) {
    if (n[0] == '#') return num(n, i, j);
    return n[0] == '0' ? 0.0 : n[0] == '1' ? (i == j ? 1.0 : 0.0) : sa_real(n, i, j);
  }
  template <int r, int cc> static Mx<r, cc> symM(const char *n) {
    Mx<r, cc> m;
    if constexpr (DYN) m.resize(r, cc);
    for (int i = 0; i < r; i++) for (int j = 0; j < cc; j++) m(i, j) = val(n, i, j);
    return m;
  }
  template <int r> static Vx<r> symV(const char *n) {
    Vx<r> m;
    if constexpr (DYN) m.resize(r);
    for (int i = 0; i < r; i++) m(i) = val(n, i, 0);
    return m;
  }
  template <int r, int cc> static void put(double (&t)[r][cc], const char *n, int cols = cc) {
    for (int i = 0; i < r; i++) for (int j = 0; j < cols; j++) t[i][j] = val(n, i, j);
  }
  template <int r> static void putCol(double (&t)[r][ph], int col, const char *n) {
    for (int i = 0; i < r; i++) t[i][col] = val(n, i, 0);
  }
  static int from(const HorizonSlice &s) { return s.start == -1 && s.end == -1 ? 0 : s.start; }
  static int to(const HorizonSlice &s, int all) { return s.start == -1 && s.end == -1 ? all : s.start < 0 || s.end > all ? s.start : s.end; } // nothing if refused

  // ---- settings, through the public interface, with symbols named by the caller
  bool model(const char *a, const char *b, const char *cc) {
    put(A, a); put(B, b); put(Cm, cc);
    return c->setStateSpaceModel(symM<nx, nx>(a), symM<nx, nu>(b), symM<ny, nx>(cc));
  }
  bool dist(const char *b, const char *d) {
    for (int i = 0; i < nx; i++) for (int j = 0; j < nd; j++) Bd[i][j] = val(b, i, j);
    for (int i = 0; i < ny; i++) for (int j = 0; j < nd; j++) Dd[i][j] = val(d, i, j);
    return c->setDisturbances(symM<nx, nd>(b), symM<ny, nd>(d));
  }
  bool weights(const char *o, const char *u, const char *d) {
    put(wy, o); put(wu, u); put(wd, d);
    return c->setObjectiveWeights(symM<ny, ph>(o), symM<nu, ph>(u), symM<nu, ph>(d));
  }
  bool weightsV(const char *o, const char *u, const char *d, HorizonSlice s) {
    for (int k = from(s); k < to(s, ph); k++) { putCol(wy, k, o); putCol(wu, k, u); putCol(wd, k, d); }
    return c->setObjectiveWeights(symV<ny>(o), symV<nu>(u), symV<nu>(d), s);
  }
  bool refs(const char *o, const char *u, const char *d) {
    put(ry, o); put(ru, u); put(rd, d);
    return c->setReferences(symM<ny, ph>(o), symM<nu, ph>(u), symM<nu, ph>(d));
  }
  bool refsV(const char *o, const char *u, const char *d, HorizonSlice s) {
    for (int k = from(s); k < to(s, ph); k++) { putCol(ry, k, o); putCol(ru, k, u); putCol(rd, k, d); }
    return c->setReferences(symV<ny>(o), symV<nu>(u), symV<nu>(d), s);
  }
  bool exo(const char *n) {
    for (int i = 0; i < nd; i++) for (int k = 0; k < ph; k++) dm[i][k] = val(n, i, k);
    return c->setExogenousInputs(symM<nd, ph>(n));
  }
  bool exoV(const char *n, HorizonSlice s) {
    for (int k = from(s); k < to(s, ph); k++) for (int i = 0; i < nd; i++) dm[i][k] = val(n, i, 0);
    return c->setExogenousInputs(symV<nd>(n), s);
  }
  bool xb(const char *l, const char *h) {
    put(xl, l); put(xh, h);
    return c->setStateBounds(symM<nx, ph>(l), symM<nx, ph>(h));
  }
  bool xbV(const char *l, const char *h, HorizonSlice s) {
    for (int k = from(s); k < to(s, ph); k++) { putCol(xl, k, l); putCol(xh, k, h); }
    return c->setStateBounds(symV<nx>(l), symV<nx>(h), s);
  }
  bool yb(const char *l, const char *h) {
    put(yl, l); put(yh, h);
    return c->setOutputBounds(symM<ny, ph>(l), symM<ny, ph>(h));
  }
  bool ybV(const char *l, const char *h, HorizonSlice s) {
    for (int k = from(s); k < to(s, ph); k++) { putCol(yl, k, l); putCol(yh, k, h); }
    return c->setOutputBounds(symV<ny>(l), symV<ny>(h), s);
  }
  void tailU() {
    for (int k = ch; k < ph; k++) for (int i = 0; i < nu; i++) { ul[i][k] = ul[i][ch - 1]; uh[i][k] = uh[i][ch - 1]; }
  }
  bool ub(const char *l, const char *h) {
    for (int i = 0; i < nu; i++) for (int k = 0; k < ch; k++) { ul[i][k] = val(l, i, k); uh[i][k] = val(h, i, k); }
    tailU();
    return c->setInputBounds(symM<nu, ch>(l), symM<nu, ch>(h));
  }
  bool ubV(const char *l, const char *h, HorizonSlice s) {
    for (int k = from(s); k < to(s, ch); k++) for (int i = 0; i < nu; i++) { ul[i][k] = val(l, i, 0); uh[i][k] = val(h, i, 0); }
    tailU();
    return c->setInputBounds(symV<nu>(l), symV<nu>(h), s);
  }
  void scalarStep(const char *l, const char *h, const char *X, const char *U, int k) {
    sl[k] = val(l, 0, 0); sh[k] = val(h, 0, 0); sSet[k] = true;
    for (int i = 0; i < nx; i++) sX[k][i] = val(X, i, 0);
    for (int i = 0; i < nu; i++) sU[k][i] = val(U, i, 0);
  }
  bool scalar(const char *l, const char *h, const char *X, const char *U, HorizonSlice s) {
    for (int k = from(s); k < to(s, ph); k++) scalarStep(l, h, X, U, k);
    return c->setScalarConstraint(val(l, 0, 0), val(h, 0, 0), symV<nx>(X), symV<nu>(U), s);
  }
  bool scalarI(const char *l, const char *h, const char *X, const char *U, int k) {
    scalarStep(l, h, X, U, k);
    return c->setScalarConstraint((unsigned)k, val(l, 0, 0), val(h, 0, 0), symV<nx>(X), symV<nu>(U));
  }
  // per-step bounds on everything at once; meaningful inside the control horizon
  bool constraints(const char *n, int k) {
    char b[8];
    auto nm = [&](const char *t) { b[0] = t[0]; b[1] = t[1]; b[2] = n[0]; b[3] = 0; return b; };
    putCol(xl, k, nm("xl")); putCol(xh, k, nm("xh")); putCol(yl, k, nm("yl")); putCol(yh, k, nm("yh")); putCol(ul, k, nm("ul")); putCol(uh, k, nm("uh"));
    if (k == ch - 1) tailU();
    auto a1 = symV<nx>(nm("xl")), a2 = symV<nx>(nm("xh"));
    auto u1 = symV<nu>(nm("ul")), u2 = symV<nu>(nm("uh"));
    auto y1 = symV<ny>(nm("yl")), y2 = symV<ny>(nm("yh"));
    return c->setConstraints((unsigned)k, a1, u1, y1, a2, u2, y2);
  }
  auto solve(const char *x, const char *u) {
    for (int i = 0; i < nx; i++) x0[i] = val(x, i, 0);
    for (int i = 0; i < nu; i++) u0[i] = val(u, i, 0);
    return c->optimize(symV<nx>(x), symV<nu>(u));
  }
  void everything() {
    model("A", "B", "C");
    if (nd) dist("Bd", "Dd");
    weights("wy", "wu", "wd");
    refs("ry", "ru", "rd");
    if (nd) exo("dm");
    xb("xl", "xh"); yb("yl", "yh"); ub("ul", "uh");
    scalar("sl", "sh", "sX", "sU", HorizonSlice::all());
  }

  // ---- obligations on the recorded problem
  static int sI(int k, int j) { return k * ns + j; }             // j-th entry of the augmented state k
  static int dI(int k, int j) { return NE + k * nu + j; }        // increment k
  static constexpr int rX = NE, rY = 2 * NE, rD = 2 * NE + (ph + 1) * ny, rS = rD + ph * nu;
  double z = 0;
  // coefficient (r,c) of the recorded A; a missing entry is zero
  const double *a(int r, int cc) {
    for (long long k = OS.Ap[cc]; k < OS.Ap[cc + 1]; k++)
      if (OS.Ai[k] == r) return &OS.Ax[k];
    return &z;
  }
  const double *p(int r, int cc) {
    if (r > cc) { int t = r; r = cc; cc = t; }
    for (long long k = OS.Pp[cc]; k < OS.Pp[cc + 1]; k++)
      if (OS.Pi[k] == r) return &OS.Px[k];
    return &z;
  }
  bool sized() {
    bool ok = OS.n == NV && OS.m == NC && OS.Am == NC && OS.An == NV && OS.Pm == NV && OS.Pn == NV;
    sa_ieq(OS.n, NV, "C05.size", 0, 0);
    sa_ieq(OS.m, NC, "C05.size", 1, 0);
    sa_ieq(OS.Am, NC, "C05.size", 2, 0);
    sa_ieq(OS.An, NV, "C05.size", 3, 0);
    sa_ieq(OS.Pm, NV, "C05.size", 4, 0);
    sa_ieq(OS.Pn, NV, "C05.size", 5, 0);
    return ok;
  }
  double dist_x(int k, int i) { double t = 0; for (int j = 0; j < nd; j++) t += Bd[i][j] * dm[j][k]; return t; }
  double dist_y(int k, int i) { double t = 0; for (int j = 0; j < nd; j++) t += Dd[i][j] * dm[j][k]; return t; }
  // expected row: dense vector over the variables
  double row[NV];
  void clearRow() { for (int k = 0; k < NV; k++) row[k] = 0; }
  void rowIs(int r, const char *rule) { for (int k = 0; k < NV; k++) sa_eq(a(r, k), row[k], rule, r, k); }
  void dynamics(const char *rule) {
    for (int i = 0; i < nx; i++) {
      clearRow(); row[sI(0, i)] = -1; rowIs(sI(0, i), rule);
      sa_eq(&OS.l[sI(0, i)], -x0[i], rule, sI(0, i), -1);
      sa_eq(&OS.u[sI(0, i)], -x0[i], rule, sI(0, i), -2);
    }
    for (int i = 0; i < nu; i++) {
      int r = sI(0, nx + i);
      clearRow(); row[r] = -1; rowIs(r, rule);
      sa_eq(&OS.l[r], -u0[i], rule, r, -1);
      sa_eq(&OS.u[r], -u0[i], rule, r, -2);
    }
    for (int k = 1; k <= ph; k++) {
      for (int i = 0; i < nx; i++) {
        int r = sI(k, i);
        clearRow();
        row[r] = -1;
        for (int j = 0; j < nx; j++) row[sI(k - 1, j)] = A[i][j];
        for (int j = 0; j < nu; j++) { row[sI(k - 1, nx + j)] = B[i][j]; row[dI(k - 1, j)] = B[i][j]; }
        rowIs(r, rule);
        double d = dist_x(k - 1, i);
        sa_eq(&OS.l[r], -d, rule, r, -1);
        sa_eq(&OS.u[r], -d, rule, r, -2);
      }
      for (int i = 0; i < nu; i++) {
        int r = sI(k, nx + i);
        clearRow();
        row[r] = -1; row[sI(k - 1, nx + i)] = 1; row[dI(k - 1, i)] = 1;
        rowIs(r, rule);
        sa_eq(&OS.l[r], 0, rule, r, -1);
        sa_eq(&OS.u[r], 0, rule, r, -2);
      }
    }
  }
  // cost: 1/2 z'Pz + q'z == sum of 1/2 weighted squares, up to a constant
  void cost(const char *rule) {
    for (int k = 0; k <= ph; k++) {
      int s = k ? k - 1 : 0;
      for (int i = 0; i < ns; i++) {
        for (int j = i; j < ns; j++) {
          double w = 0;
          if (i < nx && j < nx) for (int o = 0; o < ny; o++) w += Cm[o][i] * wy[o][s] * Cm[o][j];
          if (i == j && i >= nx) w += wu[i - nx][s];
          sa_eq(p(sI(k, i), sI(k, j)), w, rule, sI(k, i), sI(k, j));
        }
        double g = 0;
        if (i < nx) for (int o = 0; o < ny; o++) g += Cm[o][i] * wy[o][s] * (dist_y(s, o) - ry[o][s]);
        else g = -wu[i - nx][s] * ru[i - nx][s];
        sa_eq(&OS.q[sI(k, i)], g, rule, sI(k, i), -1);
      }
    }
    for (int k = 0; k < ph; k++)
      for (int i = 0; i < nu; i++) {
        sa_eq(p(dI(k, i), dI(k, i)), wd[i][k], rule, dI(k, i), dI(k, i));
        sa_eq(&OS.q[dI(k, i)], -wd[i][k] * rd[i][k], rule, dI(k, i), -1);
      }
  }
  void costOffDiagonal(const char *rule) { // nothing couples different steps
    for (int cc = 0; cc < NV; cc++)
      for (long long k = OS.Pp[cc]; k < OS.Pp[cc + 1]; k++) {
        int r = OS.Pi[k];
        bool in = cc < NE ? r / ns == cc / ns : r == cc;
        if (!in) sa_eq(&OS.Px[k], 0, rule, r, cc);
      }
    sa_reach(rule);
  }
  // a bound on a constant row (current state, last input) may be dropped
  void bound(int r, double lo, double hi, bool constant, const char *rule) {
    if (constant) {
      if (OS.l[r] == -INF && OS.u[r] == INF) { sa_reach(rule); return; }
    }
    sa_eq(&OS.l[r], lo, rule, r, -1);
    sa_eq(&OS.u[r], hi, rule, r, -2);
  }
  void bounds(const char *rule) {
    for (int k = 0; k <= ph; k++) {
      int s = k ? k - 1 : 0;
      for (int i = 0; i < nx; i++) {
        int r = rX + sI(k, i);
        clearRow(); row[sI(k, i)] = 1; rowIs(r, rule);
        bound(r, xl[i][s], xh[i][s], k == 0, rule);
      }
      for (int i = 0; i < nu; i++) {
        int r = rX + sI(k, nx + i);
        clearRow(); row[sI(k, nx + i)] = 1; rowIs(r, rule);
        bound(r, ul[i][s], uh[i][s], k == 0, rule);
      }
      for (int i = 0; i < ny; i++) {
        int r = rY + k * ny + i;
        clearRow();
        for (int j = 0; j < nx; j++) row[sI(k, j)] = Cm[i][j];
        rowIs(r, rule);
        double d = dist_y(s, i);
        bound(r, yl[i][s] - d, yh[i][s] - d, k == 0, rule);
      }
    }
    for (int k = 0; k < ph; k++)
      for (int i = 0; i < nu; i++) {
        int r = rD + k * nu + i;
        clearRow(); row[dI(k, i)] = 1; rowIs(r, rule);
        sa_eq(&OS.l[r], k >= ch ? 0.0 : -INF, rule, r, -1);
        sa_eq(&OS.u[r], k >= ch ? 0.0 : INF, rule, r, -2);
      }
    for (int k = 0; k <= ph; k++) {
      int s = k ? k - 1 : 0, r = rS + k;
      if (sSet[s]) {
        clearRow();
        for (int j = 0; j < nx; j++) row[sI(k, j)] = sX[s][j];
        for (int j = 0; j < nu; j++) row[sI(k, nx + j)] = sU[s][j];
        if (k) rowIs(r, rule);
      }
      bound(r, sl[s], sh[s], k == 0, rule);
    }
  }
  void sparse(const char *rule) {
    sparseOf(OS.Pp, OS.Pi, OS.Pnz, OS.Pn, OS.Pm, true, rule);
    sparseOf(OS.Ap, OS.Ai, OS.Anz, OS.An, OS.Am, false, rule);
  }
  static void sparseOf(long long *p, long long *ix, long long nz, long long n, long long m, bool upper, const char *rule) {
    sa_ieq(p[0], 0, rule, 0, 0);
    for (int k = 0; k < n; k++) {
      sa_true(p[k] <= p[k + 1], rule, k, -1);
      for (long long t = p[k]; t < p[k + 1]; t++) {
        sa_true(ix[t] >= 0 && ix[t] < m, rule, k, t);
        if (t > p[k]) sa_true(ix[t] > ix[t - 1], rule, k, t);
        if (upper) sa_true(ix[t] <= k, rule, k, t);
      }
    }
    sa_ieq(p[n], nz, rule, n, 0);
  }
  void all(const char *as = nullptr) {
    Also also(as);
    if (!sized()) {
      sa_true(0, "C01.dynamics", -9, 0);
      sa_true(0, "C02.cost", -9, 0);
      sa_true(0, "C03.bounds", -9, 0);
      return;
    }
    sparse("C05.csc");
    dynamics("C01.dynamics");
    cost("C02.cost");
    costOffDiagonal("C02.coupling");
    bounds("C03.bounds");
  }
  // ---- obligations on what the controller answers
  template <class R> void cmdIs(R r, const double *cmd, const char *rule) { for (int i = 0; i < nu; i++) sa_eq(&r.cmd(i), cmd[i], rule, i, 0); }
  template <class R> void answer(const R &r, const char *rule) {
    Also also(rule);
    rule = "C07.result";
    sa_veq(r.cost, OS.obj, rule, -1, 0);
    sa_ieq(r.solver_status, OS.status, rule, -1, 1);
    for (int i = 0; i < nu; i++) sa_eq(&r.cmd(i), OS.x[sI(1, nx + i)], rule, i, 0);
  }
  template <class S> void sequence(const S &s, const char *rule) {
    Also also(rule);
    rule = "C07.sequence";
    sa_ieq(s.state.rows(), ph + 1, rule, -1, 0); sa_ieq(s.state.cols(), nx, rule, -1, 1);
    sa_ieq(s.input.rows(), ph + 1, rule, -1, 2); sa_ieq(s.input.cols(), nu, rule, -1, 3);
    sa_ieq(s.output.rows(), ph + 1, rule, -1, 4); sa_ieq(s.output.cols(), ny, rule, -1, 5);
    for (int k = 0; k <= ph; k++) {
      int d = k ? k - 1 : 0, b = k < ph ? k + 1 : ph;
      for (int i = 0; i < nx; i++) sa_eq(&s.state(k, i), OS.x[sI(k, i)], rule, k, i);
      for (int i = 0; i < nu; i++) sa_eq(&s.input(k, i), OS.x[sI(b, nx + i)], rule, k, 100 + i);
      for (int i = 0; i < ny; i++) {
        double v = dist_y(d, i);
        for (int j = 0; j < nx; j++) v += Cm[i][j] * OS.x[sI(k, j)];
        sa_eq(&s.output(k, i), v, rule, k, 200 + i);
      }
    }
  }
  template <class S> void zero(const S &s, const char *rule) {
    sa_ieq(s.state.rows(), ph + 1, rule, -1, 0); sa_ieq(s.state.cols(), nx, rule, -1, 1);
    sa_ieq(s.input.rows(), ph + 1, rule, -1, 2); sa_ieq(s.input.cols(), nu, rule, -1, 3);
    sa_ieq(s.output.rows(), ph + 1, rule, -1, 4); sa_ieq(s.output.cols(), ny, rule, -1, 5);
    for (int k = 0; k <= ph; k++) {
      for (int i = 0; i < nx; i++) sa_eq(&s.state(k, i), 0, rule, k, i);
      for (int i = 0; i < nu; i++) sa_eq(&s.input(k, i), 0, rule, k, 100 + i);
      for (int i = 0; i < ny; i++) sa_eq(&s.output(k, i), 0, rule, k, 200 + i);
    }
  }
  // the solver's next answer
  static void solverAnswers(const char *x, const char *y, const char *obj, long long status = OSQP_SOLVED) {
    for (int k = 0; k < NV; k++) OS.x[k] = val(x, k, 0);
    for (int k = 0; k < NC; k++) OS.y[k] = val(y, k, 0);
    OS.obj = val(obj, 0, 0);
    OS.status = status;
    OS.setup_ret = OS.solve_ret = 0;
  }
  void lastIterate(const char *x, const char *y, const char *rule) {
    Also also(rule);
    rule = "C11.iterate";
    auto p = c->getSolverWarmStartPrimal();
    auto d = c->getSolverWarmStartDual();
    sa_ieq(p.size(), NV, rule, -1, 0);
    sa_ieq(d.size(), NC, rule, -1, 1);
    if (p.size() == NV) for (int k = 0; k < NV; k++) sa_eq(&p[k], val(x, k, 0), rule, k, 0);
    if (d.size() == NC) for (int k = 0; k < NC; k++) sa_eq(&d[k], val(y, k, 0), rule, k, 1);
  }
  void warmed(const char *x, const char *y, const char *rule) {
    Also also(rule);
    rule = "C11.warm";
    sa_true(OS.warmed && OS.warm_setting, rule, -1, 0);
    if (!OS.warmed) return;
    for (int k = 0; k < NV; k++) sa_eq(&OS.wx[k], val(x, k, 0), rule, k, 0);
    for (int k = 0; k < NC; k++) sa_eq(&OS.wy[k], val(y, k, 0), rule, k, 1);
  }
  void cold(const char *rule) { Also also(rule); sa_true(!OS.warmed || !OS.warm_setting, "C11.cold", -2, 0); }
};
