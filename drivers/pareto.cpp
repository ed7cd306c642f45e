// dominance relation on arbitrary fitness vectors, every component symbolic
#include "vp.h"
#include <HeuristicFlow/EAGlobal>
using namespace heu;
template <int N, FitnessOption FO> struct Dom {
  using F = Eigen::Array<double, N, 1>;
  using P = internal::Pareto<N, FO>;
  static bool beats(double a, double b) { return FO == FITNESS_LESS_BETTER ? a < b : a > b; }
  // every component fixed to one of: better, equal, worse (MASK in base 3)
  template <int MASK> static void one() {
    F a, b;
    int m = MASK;
    bool worse = false, better = false;
    for (int i = 0; i < N; i++) {
      const double x = VP_any_double(), y = VP_any_double();
      a[i] = x; b[i] = y;
      const int r = m % 3;
      m /= 3;
      if (r == 0) { VP_assume(beats(x, y)); better = true; }
      if (r == 1) VP_assume(x == y);
      if (r == 2) { VP_assume(beats(y, x)); worse = true; }
    }
    VP_assert(P::isStrongDominate(&a, &b) == (better && !worse), "dominance");
    VP_assert(P::isStrongDominate(&b, &a) == (worse && !better), "dominance_reversed");
    VP_assert(!P::isStrongDominate(&a, &a), "dominance_irreflexive");
  }
  template <int M, int E> static void all() { one<M>(); if constexpr (M + 1 < E) all<M + 1, E>(); }
};
void d2l() { Dom<2, FITNESS_LESS_BETTER>::all<0, 9>(); VP_reach("after"); }
void d2g() { Dom<2, FITNESS_GREATER_BETTER>::all<0, 9>(); VP_reach("after"); }
void d3l() { Dom<3, FITNESS_LESS_BETTER>::all<0, 27>(); VP_reach("after"); }
void d3g() { Dom<3, FITNESS_GREATER_BETTER>::all<0, 27>(); VP_reach("after"); }
void d4l() { Dom<4, FITNESS_LESS_BETTER>::all<0, 27>(); Dom<4, FITNESS_LESS_BETTER>::all<27, 54>(); Dom<4, FITNESS_LESS_BETTER>::all<54, 81>(); VP_reach("after"); }
void d4g() { Dom<4, FITNESS_GREATER_BETTER>::all<0, 27>(); Dom<4, FITNESS_GREATER_BETTER>::all<27, 54>(); Dom<4, FITNESS_GREATER_BETTER>::all<54, 81>(); VP_reach("after"); }
// any number of objectives (fixed 7 or decided at run time), one arbitrary objective tracked
template <int N, FitnessOption FO> struct Big {
  using F = Eigen::Array<double, N, 1>;
  using P = internal::Pareto<N, FO>;
  static bool beats(double a, double b) { return FO == FITNESS_LESS_BETTER ? a < b : a > b; }
  static void shape(F& a, int d) {
    if constexpr (N == Eigen::Dynamic) a.resize(d);
    VP_havoc_elems(a);
  }
  static void run(int) {
    const int d = N == Eigen::Dynamic ? VP_any_int() : N;
    VP_assume(d >= 2 && d <= 1000);
    VP_dims(d);
    F a, b;
    shape(a, d); shape(b, d);
    VP_assume(beats(a[VP_K()], b[VP_K()]));   // b is worse in one objective, the rest arbitrary
    VP_assert(!P::isStrongDominate(&b, &a), "dominance");
    VP_reach("after");
  }
};
void d7l() { Big<7, FITNESS_LESS_BETTER>::run(0); }
void d7g() { Big<7, FITNESS_GREATER_BETTER>::run(0); }
void dxl() { Big<Eigen::Dynamic, FITNESS_LESS_BETTER>::run(0); }
void dxg() { Big<Eigen::Dynamic, FITNESS_GREATER_BETTER>::run(0); }
