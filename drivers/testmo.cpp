// built-in multi-objective test functions against their published formulas, objective by objective
#include "vp.h"
#include <HeuristicFlow/EAGlobal>
#include <array>
#include <vector>
using namespace heu;
using namespace std;
static double sq(double v) { return v * v; }
template <class V> static void shape(V& v, int n) {
  if constexpr (!array_traits<V>::isFixedSize) {
    if constexpr (array_traits<V>::isEigenClass) v.resize(n, 1);
    else v.resize(n);
  }
}
template <class V, int N> static void vars(V& v) {
  shape(v, N);
  for (int i = 0; i < N; i++) v[i] = VP_any_double();
}
// one or two variables
#define M2(NAME, FUN, NV, NF, BODY) template <class V, class F> void NAME() { \
    V v; vars<V, NV>(v); F f; const double x = v[0], y = v[NV - 1]; double r[NF]; (void)y; \
    testFunctions<V, F, void>::FUN(&v, &f); BODY; \
    VP_assert(f.size() == NF, "objectives"); \
    for (int i = 0; i < NF; i++) VP_equal(f[i], r[i], #NAME); VP_reach("after"); }
M2(schafferN1, Schaffer1, 1, 2, r[0] = x * x; r[1] = sq(x - 2))
M2(schafferN2, Schaffer2, 1, 2, r[0] = x <= 1 ? -x : x <= 3 ? x - 2 : x <= 4 ? 4 - x : x - 4; r[1] = sq(x - 5))
M2(binh, BinhKorn, 2, 2, r[0] = 4 * x * x + 4 * y * y; r[1] = sq(x - 5) + sq(y - 5);
   if (sq(x - 5) + y * y > 25) r[0] += 1e5 + (sq(x - 5) + y * y - 25);
   if (sq(x - 8) + sq(y + 3) < 7.7) r[1] += 1e5 + (7.7 - (sq(x - 8) + sq(y + 3))))
M2(chang, ChangkongHaimes, 2, 2, r[0] = 2 + sq(x - 2) + sq(y - 1); r[1] = 9 * x - sq(y - 1);
   if (x * x + y * y > 225) r[0] += 1e5 + (x * x + y * y - 225);
   if (x - 3 * y + 10 > 0) r[1] += 1e5 + (x - 3 * y + 10))
M2(poloni, Poloni, 2, 2,
   const double A1 = 0.5 * 0.8414709848078965 - 2 * 0.5403023058681398 + 0.9092974268256817 - 1.5 * -0.4161468365471424;
   const double A2 = 1.5 * 0.8414709848078965 - 0.5403023058681398 + 2 * 0.9092974268256817 - 0.5 * -0.4161468365471424;
   const double B1 = 0.5 * sin(x) - 2 * cos(x) + sin(y) - 1.5 * cos(y);
   const double B2 = 1.5 * sin(x) - cos(x) + 2 * sin(y) - 0.5 * cos(y);
   r[0] = 1 + sq(A1 - B1) + sq(A2 - B2); r[1] = sq(x + 3) + sq(y + 1))
M2(vien, viennet, 2, 3, r[0] = 0.5 * (x * x + y * y) + sin(x * x + y * y); r[1] = sq(3 * x - 2 * y + 4) / 8 + sq(x - y + 1) / 27 + 15;
   r[2] = 1 / (x * x + y * y + 1) - 1.1 * exp(-(x * x + y * y)))
// any number of variables, two objectives
template <class V, class F, int N> void fonseca() {
  V v; vars<V, N>(v); F f; shape(f, 2);
  testFunctions<V, F, void>::FonsecaFleming(&v, &f);
  double a = 0, b = 0;
  const double s = 1.0 / sqrt(double(N));
  for (int i = 0; i < N; i++) { a += sq(v[i] - s); b += sq(v[i] + s); }
  VP_equal(f[0], 1 - exp(-a), "fonseca"); VP_equal(f[1], 1 - exp(-b), "fonseca"); VP_reach("after");
}
template <class V, class F, int N, int S> void kursawe() {
  V v; vars<V, N>(v);
  for (int i = 0; i < N; i++) VP_assume(S >> i & 1 ? v[i] > 0 : v[i] < 0); F f; shape(f, 2);
  testFunctions<V, F, void>::Kursawe(&v, &f);
  double a = 0, b = 0;
  for (int i = 0; i + 1 < N; i++) a += -10 * exp(-0.2 * sqrt(v[i] * v[i] + v[i + 1] * v[i + 1]));
  for (int i = 0; i < N; i++) b += pow(abs(v[i]), 0.8) + 5 * sin(v[i] * v[i] * v[i]);
  VP_equal(f[0], a, "kursawe"); VP_equal(f[1], b, "kursawe"); VP_reach("after");
}
// DTLZ: M objectives, N variables
#define DT(NAME, FUN, G, BASE, LAST, PROD) template <class V, class F, int N, int M> void NAME() { \
    V v; vars<V, N>(v); F f; shape(f, M); \
    testFunctions<V, F, void>::FUN(&v, &f); \
    double g = 0; for (int i = M - 1; i < N; i++) { const double x = v[i]; g += G; } (void)g; \
    for (int m = 0; m < M; m++) { \
      double r = BASE; \
      for (int i = 0; i < M - 1 - m; i++) { const double x = v[i]; r *= PROD; } \
      if (m > 0) { const double x = v[M - 1 - m]; r *= LAST; } \
      VP_equal(f[m], r, #NAME); } VP_reach("after"); }
DT(dtlz1, DTLZ1, 100 * (1 + sq(x - 0.5) - cos(20 * M_PI * (x - 0.5))), 0.5 * (1 + g), (1 - x), x)
DT(dtlz2, DTLZ2, sq(x - 0.5), 1 + g, sin(x * M_PI / 2), cos(x * M_PI / 2))
DT(dtlz3, DTLZ3, 100 * (1 + sq(x - 0.5) - cos(20 * M_PI * (x - 0.5))), 1 + g, sin(x * M_PI / 2), cos(x * M_PI / 2))
DT(dtlz4, template DTLZ4<100>, sq(x - 0.5), 1 + g, sin(pow(x, 100) * M_PI / 2), cos(pow(x, 100) * M_PI / 2))
template <class V, class F, int N, int M> void dtlz7() {
  V v; vars<V, N>(v); F f; shape(f, M);
  testFunctions<V, F, void>::DTLZ7(&v, &f);
  double g = 0, h = M;
  for (int i = M - 1; i < N; i++) g += v[i];
  g = 1 + 9 * g / (N - M + 1);
  for (int i = 0; i + 1 < M; i++) { VP_equal(f[i], v[i], "dtlz7"); h -= v[i] / (1 + g) * (1 + sin(3 * M_PI * v[i])); }
  VP_equal(f[M - 1], (1 + g) * h, "dtlz7"); VP_reach("after");
}
template <int N> using A = std::array<double, N>;
template <int N> using E = Eigen::Array<double, N, 1>;
using W = std::vector<double>;
using X = Eigen::Array<double, Eigen::Dynamic, 1>;
#define ALL(NAME, N, M) void a_##NAME() { NAME<A<N>, A<M>>(); } void e_##NAME() { NAME<E<N>, E<M>>(); } void ae_##NAME() { NAME<A<N>, E<M>>(); } \
  void w_##NAME() { NAME<W, E<M>>(); } void x_##NAME() { NAME<X, E<M>>(); } void ax_##NAME() { NAME<A<N>, X>(); } void ew_##NAME() { NAME<E<N>, W>(); } void xx_##NAME() { NAME<X, X>(); }
ALL(schafferN1, 1, 2) ALL(schafferN2, 1, 2) ALL(binh, 2, 2) ALL(chang, 2, 2) ALL(poloni, 2, 2) ALL(vien, 2, 3)
#define ALLN(NAME, N) void a_##NAME() { NAME<A<N>, A<2>, N>(); } void e_##NAME() { NAME<E<N>, E<2>, N>(); } void ae_##NAME() { NAME<A<N>, E<2>, N>(); } \
  void w_##NAME() { NAME<W, E<2>, N>(); } void x_##NAME() { NAME<X, E<2>, N>(); } void ax_##NAME() { NAME<A<N>, X, N>(); } void xx_##NAME() { NAME<X, X, N>(); }
#define ALLD(NAME, N, M) void a_##NAME() { NAME<A<N>, A<M>, N, M>(); } void e_##NAME() { NAME<E<N>, E<M>, N, M>(); } void ae_##NAME() { NAME<A<N>, E<M>, N, M>(); } \
  void w_##NAME() { NAME<W, E<M>, N, M>(); } void x_##NAME() { NAME<X, E<M>, N, M>(); } void ax_##NAME() { NAME<A<N>, X, N, M>(); } void xx_##NAME() { NAME<X, X, N, M>(); }
template <class V, class F, int N> void kurpos() { kursawe<V, F, N, 7>(); }
template <class V, class F, int N> void kurneg() { kursawe<V, F, N, 0>(); }
template <class V, class F, int N> void kurmix() { kursawe<V, F, N, 2>(); }
ALLN(fonseca, 3) ALLN(kurpos, 3) ALLN(kurneg, 3) ALLN(kurmix, 3)
ALLD(dtlz1, 4, 3) ALLD(dtlz2, 4, 3) ALLD(dtlz3, 4, 3) ALLD(dtlz4, 4, 3) ALLD(dtlz7, 5, 3)

// problems whose formula the sources leave open: every objective gets a value, from inside the arrays
#define RUN(NAME, FUN) template <class V, class F, int N, int M> void NAME() { \
    V v; vars<V, N>(v); F f; shape(f, M); \
    for (int i = 0; i < N; i++) VP_assume(v[i] >= 0); \
    testFunctions<V, F, void>::FUN(&v, &f); \
    for (int i = 0; i < M; i++) VP_assert(f[i] == f[i], "objective"); VP_reach("after"); }
RUN(dtlz5, DTLZ5) RUN(dtlz6, DTLZ6) RUN(dtlz8, DTLZ8) RUN(dtlz9, DTLZ9)
ALLD(dtlz5, 4, 3) ALLD(dtlz6, 4, 3) ALLD(dtlz8, 7, 3) ALLD(dtlz9, 7, 3)
