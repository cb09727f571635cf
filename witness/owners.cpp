// C25: no program can give one solver two owners.  Only compiled.
#include <type_traits>
#include <mpc/LMPC.hpp>
#include <mpc/NLMPC.hpp>
using namespace mpc;
template <class C> constexpr bool copies = std::is_copy_constructible_v<C> || std::is_copy_assignable_v<C>;
template <class C> constexpr bool moves = std::is_move_constructible_v<C> || std::is_move_assignable_v<C>;
constexpr int d = Eigen::Dynamic;
static_assert(!copies<LMPC<>> && !copies<LMPC<2, 1, 1, 2, 5, 3>> && !copies<LMPC<d, d, d, d, d, d>>);
static_assert(!copies<NLMPC<>> && !copies<NLMPC<2, 1, 2, 5, 3, 1, 1>> && !copies<NLMPC<d, d, d, d, d, d, d>>);
static_assert(!copies<Logger>);
