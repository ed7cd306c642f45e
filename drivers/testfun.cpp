// built-in test functions against their published formulas, term by term
#include "vp.h"
#include <HeuristicFlow/EAGlobal>
#include <array>
#include <vector>
using namespace heu;
static double sq(double v) { return v * v; }
template <class V, int N> static void vars(V& v) {
  if constexpr (!array_traits<V>::isFixedSize) {
    if constexpr (array_traits<V>::isEigenClass) v.resize(N, 1);
    else v.resize(N);
  }
  for (int i = 0; i < N; i++) v[i] = VP_any_double();
}
#define F2(NAME, FUN, EXPR) template <class V> void NAME() { \
    using namespace std; V v; vars<V, 2>(v); const double x = v[0], y = v[1]; double f; \
    testFunctions<V, double, void>::FUN(&v, &f); VP_equal(f, EXPR, #NAME); VP_reach("after"); }
F2(ackley, ackley, -20 * exp(-0.2 * sqrt(0.5 * (x * x + y * y))) - exp(0.5 * (cos(2 * M_PI * x) + cos(2 * M_PI * y))) + M_E + 20)
F2(beale, beale, sq(1.5 - x + x * y) + sq(2.25 - x + x * y * y) + sq(2.625 - x + x * y * y * y))
F2(goldstein, GoldsteinPrice, (1 + sq(x + y + 1) * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y)) * (30 + sq(2 * x - 3 * y) * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y)))
F2(booth, booth, sq(x + 2 * y - 7) + sq(2 * x + y - 5))
F2(bukin, bukin, 100 * sqrt(abs(y - 0.01 * x * x)) + 0.01 * abs(x + 10))
F2(matyas, matyas, 0.26 * (x * x + y * y) - 0.48 * x * y)
F2(levy, levy, sq(sin(3 * M_PI * x)) + sq(x - 1) * (1 + sq(sin(3 * M_PI * y))) + sq(y - 1) * (1 + sq(sin(2 * M_PI * y))))
F2(himmelblau, himmelblau, sq(x * x + y - 11) + sq(x + y * y - 7))
F2(easom, easom, -cos(x) * cos(y) * exp(-(sq(x - M_PI) + sq(y - M_PI))))
F2(cross, crossInTray, -0.0001 * pow(abs(sin(x) * sin(y) * exp(abs(100 - sqrt(x * x + y * y) / M_PI))) + 1, 0.1))
F2(egg, eggHolder, -(y + 47) * sin(sqrt(abs(x / 2 + (y + 47)))) - x * sin(sqrt(abs(x - (y + 47)))))
F2(holder, holderTable, -abs(sin(x) * cos(y) * exp(abs(1 - sqrt(x * x + y * y) / M_PI))))
F2(mccormick, McCormick, sin(x + y) + sq(x - y) - 1.5 * x + 2.5 * y + 1)
F2(schaffer2, schaffer2, 0.5 + (sq(sin(x * x - y * y)) - 0.5) / sq(1 + 0.001 * (x * x + y * y)))
F2(schaffer4, schaffer4, 0.5 + (sq(cos(sin(abs(x * x - y * y)))) - 0.5) / sq(1 + 0.001 * (x * x + y * y)))
template <class V> void camel() {
  V v; vars<V, 2>(v); const double x = v[0], y = v[1]; double f;
  internal::SOFunctions2<V, double, void>::threeHumpCamel(&v, &f);
  VP_equal(f, 2 * x * x - 1.05 * x * x * x * x + x * x * x * x * x * x / 6 + x * y + y * y, "camel"); VP_reach("after");
}
#define FX(NAME, FUN, N, INIT, TERM) template <class V> void NAME() { \
    using namespace std; V v; vars<V, N>(v); double f; \
    testFunctions<V, double, void>::FUN(&v, &f); double r = INIT; \
    for (int i = 0; i < N; i++) { const double x = v[i]; r += TERM; } VP_equal(f, r, #NAME); VP_reach("after"); }
FX(rastrigin, rastrigin, 3, 30.0, x * x - 10 * cos(2 * M_PI * x))
FX(sphere, sphere, 4, 0, x * x)
FX(rosenbrock, rosenbrock, 4, 0, (i + 1 < 4 ? 100 * sq(v[(i + 1) % 4] - x * x) + sq(1 - x) : 0))
FX(tang, styblinskiTang, 3, 0, 0.5 * (x * x * x * x - 16 * x * x + 5 * x))
using A2 = std::array<double, 2>; using E2 = Eigen::Array<double, 2, 1>; using V2 = std::vector<double>; using D2 = Eigen::Array<double, Eigen::Dynamic, 1>;
#define ALL(NAME) void a_##NAME() { NAME<A2>(); } void e_##NAME() { NAME<E2>(); } void v_##NAME() { NAME<V2>(); } void d_##NAME() { NAME<D2>(); }
ALL(ackley) ALL(beale) ALL(goldstein) ALL(booth) ALL(bukin) ALL(matyas) ALL(levy) ALL(himmelblau) ALL(easom) ALL(cross)
ALL(egg) ALL(holder) ALL(mccormick) ALL(schaffer2) ALL(schaffer4) ALL(camel)
#define ALLX(NAME, N) void a_##NAME() { NAME<std::array<double, N>>(); } void e_##NAME() { NAME<Eigen::Array<double, N, 1>>(); } void v_##NAME() { NAME<V2>(); } void d_##NAME() { NAME<D2>(); }
ALLX(rastrigin, 3) ALLX(sphere, 4) ALLX(rosenbrock, 4) ALLX(tang, 3)
