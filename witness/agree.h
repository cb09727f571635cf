// Entries that give a controller with compile-time sizes and one with run-time
// sizes the same settings and compare what they do, cell by cell.
#pragma once
#include "sa.h"
template <class V> static void sameReal(const V &a, const V &b, int n, const char *rule, int tag) {
  for (int k = 0; k < n; k++) sa_veq(b[k], a[k], rule, tag, k);
}
template <class M, class N> static void sameMat(const M &a, const N &b, const char *rule, int tag) {
  sa_ieq(b.rows(), a.rows(), rule, tag, -1);
  sa_ieq(b.cols(), a.cols(), rule, tag, -2);
  if (a.rows() != b.rows() || a.cols() != b.cols()) return;
  for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) sa_veq(b(i, j), a(i, j), rule, tag * 1000 + i, j);
}
template <class R, class Q> static void sameResult(const R &a, const Q &b, const char *rule) {
  sa_veq(b.cost, a.cost, rule, 1, 0);
  sa_ieq(b.solver_status, a.solver_status, rule, 1, 1);
  sa_ieq(b.status, a.status, rule, 1, 2);
  sa_ieq(b.is_feasible, a.is_feasible, rule, 1, 3);
  sameMat(a.cmd, b.cmd, rule, 2);
}
template <class R, class Q> static void sameSequence(const R &a, const Q &b, const char *rule) {
  sameMat(a.state, b.state, rule, 3);
  sameMat(a.input, b.input, rule, 4);
  sameMat(a.output, b.output, rule, 5);
}
