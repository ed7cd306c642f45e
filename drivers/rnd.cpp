// global helpers: uniform draws, logistic chaos
#include "vp.h"
#include <HeuristicFlow/Global>
using namespace heu;
void unit() {
  const double d = randD();
  VP_assert(d >= 0 && d < 1, "in_range");
  const float f = randF();
  VP_assert(f >= 0 && f < 1, "in_range");
  VP_reach("after");
}
void span() {
  const double a = VP_any_double(), b = VP_any_double();
  VP_assume(a < b);
  const double d = randD(a, b);
  VP_assert(d >= a && d < b, "in_range");
  VP_reach("after");
}
template <class T> void index() {
  const int n = VP_any_int();
  VP_assume(n >= 1 && n <= 1000000);
  const T k = randIdx(T(n));
  VP_assert(k >= 0 && k < T(n), "in_range");
  VP_reach("after");
}
template <class T> void between() {
  const int a = VP_any_int(), b = VP_any_int();
  VP_assume(a < b && a >= (std::is_signed_v<T> ? -1000000 : 0) && b <= 1000000);
  const T k = randIdx(T(a), T(b));
  VP_assert(k >= T(a) && k < T(b), "in_range");
  VP_reach("after");
}
void idx_i() { index<int>(); }
void idx_z() { index<size_t>(); }
void idx_u() { index<unsigned>(); }
void btw_i() { between<int>(); }
void btw_z() { between<size_t>(); }
void btw_l() { between<long>(); }
template <int MODE> void many() {
  const int n = VP_any_int();
  VP_assume(n >= 1 && n <= 1000000);
  VP_dims(n);
  std::vector<double> v(n);
  const double a = MODE ? VP_any_double() : 0, b = MODE ? VP_any_double() : 1;
  VP_assume(a < b);
  if constexpr (MODE) randD(v.data(), n, a, b); else randD(v.data(), n);
  VP_assert(at(v, VP_K()) >= a && at(v, VP_K()) < b, "in_range");
  VP_assert(int(v.size()) == n, "in_range");
  VP_reach("after");
}
void many0() { many<0>(); }
void many1() { many<1>(); }
// every quarter of the draws covers its quarter of the range: uniform, nothing left out
template <int M> void even() {
  VP_draws(M / 4., (M + 1) / 4.);
  VP_assert(randIdx(4) == M && randIdx(size_t(4)) == size_t(M) && randIdx(-2, 2) == M - 2, "uniform");
  const double d = randD(-2., 2.);
  VP_assert(d >= M - 2 && d <= M - 1, "uniform");
  VP_reach("after");
}
void even0() { even<0>(); }
void even1() { even<1>(); }
void even2() { even<2>(); }
void even3() { even<3>(); }
