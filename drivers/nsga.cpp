// non-dominated sorting (NSGA2, NSGA3): how many solutions dominate each one, on an arbitrary population
#include "vp.h"
#include <HeuristicFlow/Genetic>
using namespace heu;
struct MV { double x; };
// what every other solution is like, compared with the tracked one
enum { AnyFitness, WorseInFirst, WorseInLast, BetterInFirst, BetterInLast, AllEqual };
template <class S, int N, FitnessOption FO>
struct Sel : S {
  using Gene = typename S::Gene_t;
  static bool beats(double a, double b) { return FO == FITNESS_LESS_BETTER ? a < b : a > b; }
  static bool noworse(double a, double b) { return FO == FITNESS_LESS_BETTER ? a <= b : a >= b; }
  template <int I, int MODE> static void set(Gene& g, const double* F) {
    const double v = VP_any_double();
    if (MODE == WorseInFirst && I == 0) VP_assume(beats(F[I], v));
    if (MODE == WorseInLast && I == N - 1) VP_assume(beats(F[I], v));
    if (MODE == BetterInFirst) { if (I == 0) VP_assume(beats(v, F[I])); else VP_assume(noworse(v, F[I])); }
    if (MODE == BetterInLast) { if (I == N - 1) VP_assume(beats(v, F[I])); else VP_assume(noworse(v, F[I])); }
    if (MODE == AllEqual) VP_assume(v == F[I]);
    g.fitness[I] = v;
    if constexpr (I + 1 < N) set<I + 1, MODE>(g, F);
  }
  template <int I> static void own(Gene& g, const double* F) {
    g.fitness[I] = F[I];
    if constexpr (I + 1 < N) own<I + 1>(g, F);
  }
  template <int MODE> void count() {
    const std::size_t n = VP_any_size();
    VP_assume(n >= 2 && n <= 4000000);
    VP_focus_elems<Gene>();
    double F[N];
    for (int i = 0; i < N; i++) F[i] = VP_any_double();
    this->_population.resize(n);
    bool has = false;
    VP_each(this->_population, [&](Gene& g) {
      g.dominated_by_num = VP_any_size();
      if (VP_is_focus(g)) { has = true; own<0>(g, F); }
      else set<0, MODE>(g, F);
    });
    VP_assume(has);
    this->sortSpace.clear();
    for (auto it = this->_population.begin(); it != this->_population.end(); ++it) this->sortSpace.emplace_back(it);
    this->calculateDominatedNum();
    for (auto& g : this->_population) {
      if (!VP_is_focus(g)) continue;
      if (MODE == AnyFitness) VP_assert(g.dominated_by_num <= n - 1, "dominated_at_most_others");
      else if (MODE == BetterInFirst || MODE == BetterInLast) VP_assert(g.dominated_by_num == n - 1, "dominated_by_all");
      else VP_assert(g.dominated_by_num == 0, "dominated_by_none");
      VP_reach("after");
    }
  }
};
#define D(NAME, S, N, FO) \
 void NAME##_any() { Sel<S, N, FO> s; s.template count<AnyFitness>(); } \
 void NAME##_wf() { Sel<S, N, FO> s; s.template count<WorseInFirst>(); } \
 void NAME##_wl() { Sel<S, N, FO> s; s.template count<WorseInLast>(); } \
 void NAME##_bf() { Sel<S, N, FO> s; s.template count<BetterInFirst>(); } \
 void NAME##_bl() { Sel<S, N, FO> s; s.template count<BetterInLast>(); } \
 void NAME##_eq() { Sel<S, N, FO> s; s.template count<AllEqual>(); }
using A = NSGA2<MV, 2, FITNESS_LESS_BETTER>;
using B = NSGA2<MV, 2, FITNESS_GREATER_BETTER>;
using C = NSGA2<MV, 3, FITNESS_GREATER_BETTER>;
using E = NSGA3<MV, 3>;
D(n2l, A, 2, FITNESS_LESS_BETTER)
D(n2g, B, 2, FITNESS_GREATER_BETTER)
D(n3g, C, 3, FITNESS_GREATER_BETTER)
D(m3l, E, 3, FITNESS_LESS_BETTER)
