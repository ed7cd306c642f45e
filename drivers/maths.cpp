// the logistic map and the arithmetic helpers
#include "vp.h"
#include <HeuristicFlow/Global>
#include <HeuristicFlow/src/Global/LogisticChaos.hpp>
using namespace heu;
static double logistic(double x) { return 4 * x * (1 - x); }
template <int L> static void chaos() {
  const double x0 = VP_any_double();
  VP_assume(x0 > 0); VP_assume(x0 < 1);
  double x[L + 2];
  x[0] = x0;
  for (int i = 0; i <= L; i++) x[i + 1] = logistic(x[i]);
  {  // one value at a time
    LogisticChaos c(x0);
    VP_equal(c.value(), x0, "starts_at_the_seed");
    for (int i = 1; i <= L; i++) {
      VP_equal(c(), x[i], "next_value");
      VP_equal(c.value(), x[i], "current_value");
    }
  }
  {  // several steps at once
    LogisticChaos c(x0);
    c.iterate(L);
    VP_equal(c.value(), x[L], "iterated_value");
    VP_equal(c(), x[L + 1], "next_value");
  }
  {  // a whole sequence
    LogisticChaos c(x0);
    double s[L + 1];
    const double mark = VP_any_double();
    s[L] = mark;
    c.makeSequence(s, L);
    for (int i = 0; i < L; i++) VP_equal(s[i], x[i + 1], "sequence_value");
    VP_equal(s[L], mark, "nothing_else_written");
    VP_equal(c.value(), x[L], "current_value");
    VP_equal(c(), x[L + 1], "next_value");
  }
  VP_reach("after");
}
void chaos0() { chaos<0>(); }
void chaos1() { chaos<1>(); }
void chaos2() { chaos<2>(); }
void chaos3() { chaos<3>(); }
void chaos4() { chaos<4>(); }
void chaos_random() {
  LogisticChaos c;
  VP_assert(c.value() >= 0 && c.value() <= 1, "random_seed_in_range");
  VP_reach("after");
}
// the smallest and the largest of several values
template <class T> static void extremes(T a, T b, T c, T d) {
  {
    const T m = heu::min(a, b), M = heu::max(a, b);
    VP_assert(m <= a && m <= b && (m == a || m == b), "smallest_of_two");
    VP_assert(M >= a && M >= b && (M == a || M == b), "largest_of_two");
  }
  {
    const T m = heu::min(a, b, c), M = heu::max(a, b, c);
    VP_assert(m <= a && m <= b && m <= c && (m == a || m == b || m == c), "smallest_of_three");
    VP_assert(M >= a && M >= b && M >= c && (M == a || M == b || M == c), "largest_of_three");
  }
  VP_reach("after");
}
template <class T> static void extremes4(T a, T b, T c, T d) {
  const T m = heu::min(a, b, c, d);
  VP_assert(m <= a && m <= b && m <= c && m <= d && (m == a || m == b || m == c || m == d), "smallest_of_four");
  VP_reach("after");
}
template <class T> static void extremes5(T a, T b, T c, T d) {
  const T M = heu::max(a, b, c, d);
  VP_assert(M >= a && M >= b && M >= c && M >= d && (M == a || M == b || M == c || M == d), "largest_of_four");
  VP_reach("after");
}
void extremes_d() { extremes<double>(VP_any_double(), VP_any_double(), VP_any_double(), VP_any_double()); }
void extremes_i() { extremes<int>(VP_any_int(), VP_any_int(), VP_any_int(), VP_any_int()); }
void smallest4() { extremes4<double>(VP_any_double(), VP_any_double(), VP_any_double(), VP_any_double()); }
void largest4() { extremes5<double>(VP_any_double(), VP_any_double(), VP_any_double(), VP_any_double()); }
void signs() {
  const double x = VP_any_double();
  VP_equal(heu::square(x), x * x, "square");
  const double s = heu::sign(x);
  VP_assert(x > 0 ? s == 1 : x < 0 ? s == -1 : s == 0, "sign");
  const int i = VP_any_int();
  const int t = heu::sign(i);
  VP_assert(i > 0 ? t == 1 : i < 0 ? t == -1 : t == 0, "sign");
  VP_reach("after");
}
template <class T> static void factorials(int last) {
  T want = 1;
  for (int n = 0; n <= last; n++) {
    if (n > 1) want *= T(n);
    VP_assert(heu::fractorial<T>(T(n)) == want, "factorial");
  }
  VP_reach("after");
}
void factorials_i() { factorials<int>(12); }
void factorials_u() { factorials<std::size_t>(20); }
// Pascal's triangle
template <class T> static void triangle(int from, int to) {
  T row[40];
  row[0] = 1;
  for (int n = 0; n <= to; n++) {
    if (n > 0) { row[n] = 1; for (int k = n - 1; k > 0; k--) row[k] += row[k - 1]; }
    if (n >= from) for (int k = 0; k <= n; k++) VP_assert(heu::NchooseK<T>(T(n), T(k)) == row[k], "combinations");
  }
  VP_reach("after");
}
void triangle_i() { triangle<int>(0, 12); }
void triangle_u() { triangle<std::size_t>(0, 12); }
void triangle_big() { triangle<uint64_t>(24, 26); }
