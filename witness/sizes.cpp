// C28: arithmetic of compile-time sizes.
#include <mpc/Dim.hpp>
#include <mpc/Types.hpp>
#include <type_traits>
#include "sa.h"
using mpc::Size;
#ifdef SIZES_STATIC
// usable in constant expressions, and in the types of the library
constexpr int dyn = Eigen::Dynamic;
static_assert(dyn == -1);
consteval bool table() {
  for (int a = -1; a < 7; a++)
    for (int b = -1; b < 7; b++) {
      const bool known = a >= 0 && b >= 0;
      const int add = known ? a + b : dyn, mul = known ? a * b : dyn;
      const Size A(a), B(b);
      if ((A + B).value != add || (A + b).value != add || (a + B).value != add) return false;
      if ((A * B).value != mul || (A * b).value != mul || (a * B).value != mul) return false;
      if (!known || a >= b) {
        const int sub = known ? a - b : dyn;
        if ((A - B).value != sub || (A - b).value != sub || (a - B).value != sub) return false;
      }
      if (int(A) != a) return false;
    }
  return true;
}
static_assert(table());
static_assert((2 * Size(3) * Size(4)).value == 24 && (Size(3) * Size(4) + Size(2) * Size(2) + 1).value == 17);
static_assert((2 * Size(dyn) * Size(4)).value == dyn && (Size(3) * Size(4) + Size(2) * Size(dyn) + 1).value == dyn && (1 + Size(dyn)).value == dyn);
static_assert(std::is_same_v<mpc::cvec<Size(3) * Size(4) + 1>, Eigen::Matrix<double, 13, 1>>);
static_assert(std::is_same_v<mpc::mat<1 + Size(dyn), Size(2) - 1>, Eigen::Matrix<double, dyn, 1>>);
constexpr mpc::MPCSize s(1, 2, 3, 4, 5, 6, 7, 8);
static_assert(s.nx == 1 && s.nu == 2 && s.ndu == 3 && s.ny == 4 && s.ph == 5 && s.ch == 6 && s.ineq == 7 && s.eq == 8);
static_assert(mpc::make_dimension(5, true) == 5 && mpc::make_dimension(5, false) == dyn);
#else
#define ENTRY(n) extern "C" void n()
static void all(int a, int b, bool known, int i, int j) {
  Size A(a), B(b);
  int add = known ? a + b : -1, sub = known ? a - b : -1, mul = known ? a * b : -1;
  sa_ieq((A + B).value, add, "C28.add", i, j); sa_ieq((A + b).value, add, "C28.add", i, 100 + j); sa_ieq((a + B).value, add, "C28.add", i, 200 + j);
  sa_ieq((A * B).value, mul, "C28.mul", i, j); sa_ieq((A * b).value, mul, "C28.mul", i, 100 + j); sa_ieq((a * B).value, mul, "C28.mul", i, 200 + j);
  if (known && a < b) return; // there are no negative sizes
  sa_ieq((A - B).value, sub, "C28.sub", i, j); sa_ieq((A - b).value, sub, "C28.sub", i, 100 + j); sa_ieq((a - B).value, sub, "C28.sub", i, 200 + j);
}
ENTRY(e_sizes) {
  for (int a = -1; a < 9; a++)
    for (int b = -1; b < 9; b++) all(a, b, a >= 0 && b >= 0, a, b);
  mpc::MPCSize s(1, 2, 3, 4, 5, 6, 7, 8);
  const Size *f[] = {&s.nx, &s.nu, &s.ndu, &s.ny, &s.ph, &s.ch, &s.ineq, &s.eq};
  for (int i = 0; i < 8; i++) sa_ieq(f[i]->value, i + 1, "C28.fields", i, 0);
}
// sizes the analysis knows nothing about but that they are sizes
ENTRY(e_unknown) {
  int a = sa_int("a"), b = sa_int("b");
  sa_assume(a >= 0);
  sa_assume(b >= 0);
  sa_assume(a - b >= 0);
  Size A(a), B(b);
  sa_ieq((A + B).value, a + b, "C28.add", -9, 0); sa_ieq((A + b).value, a + b, "C28.add", -9, 1); sa_ieq((a + B).value, a + b, "C28.add", -9, 2);
  sa_ieq((A * B).value, a * b, "C28.mul", -9, 0); sa_ieq((A * b).value, a * b, "C28.mul", -9, 1); sa_ieq((a * B).value, a * b, "C28.mul", -9, 2);
  sa_ieq((A - B).value, a - b, "C28.sub", -9, 0); sa_ieq((A - b).value, a - b, "C28.sub", -9, 1); sa_ieq((a - B).value, a - b, "C28.sub", -9, 2);
  Size D(-1);
  sa_ieq((A + D).value, -1, "C28.add", -8, 0); sa_ieq((D + a).value, -1, "C28.add", -8, 1); sa_ieq((a + D).value, -1, "C28.add", -8, 2); sa_ieq((-1 + A).value, -1, "C28.add", -8, 3);
  sa_ieq((A * D).value, -1, "C28.mul", -8, 0); sa_ieq((D * a).value, -1, "C28.mul", -8, 1); sa_ieq((a * D).value, -1, "C28.mul", -8, 2); sa_ieq((-1 * A).value, -1, "C28.mul", -8, 3);
  sa_ieq((A - D).value, -1, "C28.sub", -8, 0); sa_ieq((D - a).value, -1, "C28.sub", -8, 1); sa_ieq((a - D).value, -1, "C28.sub", -8, 2); sa_ieq((-1 - A).value, -1, "C28.sub", -8, 3);
}
#endif
