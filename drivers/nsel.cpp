// survivor selection of NSGA2 and NSGA3 on small populations: every fitness of a given order of domination
#include "vp.h"
#include <HeuristicFlow/Genetic>
#include <cmath>
using namespace heu;
struct MV { int id; };
template <class S, int N, FitnessOption FO>
struct El : S {
  using Gene = typename S::Gene_t;
  double f[6][3];
  int K, keep;
  static bool better(double a, double b) { return FO == FITNESS_LESS_BETTER ? a < b : a > b; }
  // ORDER lists the solutions by their place in the population, first place in the last digit
  void start(int k, int kp, int order) {
    K = k; keep = kp;
    auto o = this->option();
    o.populationSize = keep;
    this->setOption(o);
    if constexpr (S::Fitness_t::RowsAtCompileTime == Eigen::Dynamic) this->setObjectiveNum(N);
    for (int i = 0; i < K; i++)
      for (int j = 0; j < N; j++) f[i][j] = VP_any_double();
    this->_population.clear();
    for (int i = 0; i < K; i++) {
      this->_population.emplace_back();
      Gene& g = this->_population.back();
      g.decision_variable.id = order % 10;
      order /= 10;
      g.is_fitness_computed = true;
      past(g, 0);
      if constexpr (S::Fitness_t::RowsAtCompileTime == Eigen::Dynamic) g.fitness.resize(N);
      for (int j = 0; j < N; j++) g.fitness[j] = f[g.decision_variable.id][j];
    }
  }
  bool alive(int k) { for (auto& g : this->_population) if (g.decision_variable.id == k) return true; return false; }
  bool front(int k) { for (auto g : this->_pfGenes) if (g->decision_variable.id == k) return true; return false; }
  void beats(int a, int b) { for (int j = 0; j < N; j++) VP_assume(better(f[a][j], f[b][j])); }
  // solutions first..last form one layer: the first objective gets worse, the last one better
  void layer(int first, int last) {
    for (int i = first; i < last; i++) {
      VP_assume(better(f[i][0], f[i + 1][0]));
      VP_assume(better(f[i + 1][N - 1], f[i][N - 1]));
      if (N == 3) VP_assume(better(f[i][1], f[i + 1][1]));
    }
  }
  void above(int a0, int a1, int b0, int b1) { for (int a = a0; a <= a1; a++) for (int b = b0; b <= b1; b++) beats(a, b); }
  template <class T> static auto prepare(T& t, int) -> decltype(t.makeReferencePoses(), void()) { t.setReferencePointPrecision(2); t.makeReferencePoses(); }
  template <class T> static void prepare(T&, long) {}
  // what the selection of the generation before left behind
  template <class T> static auto past(T& g, int) -> decltype(g.congestion, void()) { g.congestion = VP_any_double(); g.dominated_by_num = std::size_t(VP_any_int() & 7); }
  template <class T> static void past(T& g, long) { g.distance = VP_any_double(); }
  // layer of each solution, best layer first, is nondecreasing in its number; the first layer has FIRST solutions
  void check(int first, int sure) {
    prepare(*this, 0);
    this->__impl_select();
    VP_assert(int(this->_population.size()) == keep, "configured_size");
    for (int i = 0; i < sure; i++) VP_assert(alive(i), "better_layers_survive");
    if (first <= keep) {
      VP_assert(int(this->_pfGenes.size()) == first, "front_size");
      for (int i = 0; i < K; i++) VP_assert(front(i) == (i < first), "front_is_first_layer");
    } else {
      VP_assert(int(this->_pfGenes.size()) == keep, "front_size");
      for (int i = 0; i < K; i++) VP_assert(front(i) == alive(i), "front_is_survivors");
    }
    VP_reach("after");
  }
  double gap(int j, int lo, int hi, int first, int last) {
    return std::abs(f[lo][j] - f[hi][j]) / (std::abs(f[first][j] - f[last][j]) + 1e-10);
  }
  void one_layer(int k, int kp, int order) { start(k, kp, order); layer(0, k - 1); check(k, 0); }
  void total(int k, int kp, int order) { start(k, kp, order); for (int i = 0; i + 1 < k; i++) beats(i, i + 1); check(1, kp); }
  // layers of a, b and c solutions
  void layers(int a, int b, int c, int kp, int order) {
    start(a + b + c, kp, order);
    layer(0, a - 1); layer(a, a + b - 1); layer(a + b, a + b + c - 1);
    above(0, a - 1, a, a + b - 1); above(a, a + b - 1, a + b, a + b + c - 1);
    check(a, kp >= a + b + c ? a + b + c : kp >= a + b ? a + b : kp >= a ? a : 0);
  }
  // two inner solutions of one front: the more crowded one goes
  void crowded(int order) {
    start(4, 3, order);
    layer(0, 3);
    const bool lo = FO == FITNESS_LESS_BETTER;
    const double c1 = gap(0, 0, 2, 0, 3) + gap(N - 1, 0, 2, 0, 3) + (N == 3 ? gap(1, 0, 2, 0, 3) : 0);
    const double c2 = gap(0, 1, 3, 0, 3) + gap(N - 1, 1, 3, 0, 3) + (N == 3 ? gap(1, 1, 3, 0, 3) : 0);
    this->__impl_select();
    VP_assert(alive(0) && alive(3), "ends_survive");
    if (!alive(1)) VP_assert(c1 <= c2, "most_crowded_goes");
    if (!alive(2)) VP_assert(c2 <= c1, "most_crowded_goes");
    VP_reach("after");
  }
};
// o0, o1, o2: the solutions from the smallest value of each objective (last digit) to the largest; no one dominates another
template <class S, FitnessOption FO>
struct En : El<S, 3, FO> {
  void ends(int k, int kp, int order, int o0, int o1, int o2) {
    this->start(k, kp, order);
    int o[3] = {o0, o1, o2}, lo[3], hi[3];
    for (int j = 0; j < 3; j++) {
      lo[j] = o[j] % 10;
      for (int i = 1; i < k; i++) { const int a = o[j] % 10; o[j] /= 10; VP_assume(this->f[a][j] < this->f[o[j] % 10][j]); }
      hi[j] = o[j] % 10;
    }
    this->__impl_select();
    VP_assert(int(this->_population.size()) == kp, "configured_size");
    for (int j = 0; j < 3; j++) VP_assert(this->alive(lo[j]) && this->alive(hi[j]), "ends_survive");
    VP_reach("after");
  }
};
using A = NSGA2<MV, 2, FITNESS_LESS_BETTER>;
#define D(NAME, S, N, FO) D3(NAME, S, N, FO) void NAME##_crowded() { El<S, N, FO> s; s.crowded(3210); }
#define D3(NAME, S, N, FO) \
 void NAME##_chain() { El<S, N, FO> s; s.one_layer(4, 3, 2031); } \
 void NAME##_chain2() { El<S, N, FO> s; s.one_layer(4, 2, 3120); } \
 void NAME##_total() { El<S, N, FO> s; s.total(4, 2, 1302); } \
 void NAME##_exact() { El<S, N, FO> s; s.layers(2, 2, 1, 2, 13042); } \
 void NAME##_split() { El<S, N, FO> s; s.layers(2, 2, 1, 3, 13042); } \
 void NAME##_two() { El<S, N, FO> s; s.layers(1, 2, 2, 3, 43210); } \
 void NAME##_late() { El<S, N, FO> s; s.layers(1, 1, 3, 3, 43210); } \
 void NAME##_all() { El<S, N, FO> s; s.layers(2, 1, 1, 4, 1032); } \


D(n2l, A, 2, FITNESS_LESS_BETTER)
using B = NSGA2<MV, 3, FITNESS_GREATER_BETTER>;
using C = NSGA2<MV, Eigen::Dynamic, FITNESS_LESS_BETTER>;
using E3 = NSGA3<MV, 2>;
using F3 = NSGA3<MV, 3>;
D(n2g, B, 3, FITNESS_GREATER_BETTER)
D(n2d, C, 2, FITNESS_LESS_BETTER)
D3(n3l, E3, 2, FITNESS_LESS_BETTER)
D3(n3m, F3, 3, FITNESS_LESS_BETTER)
// solution 4 is inside in every objective, each other one is an end of one or two objectives
void ends_a() { En<NSGA2<MV, 3, FITNESS_LESS_BETTER>, FITNESS_LESS_BETTER> s; s.ends(5, 4, 20314, 13240, 24301, 4213 + 0); }
void ends_b() { En<B, FITNESS_GREATER_BETTER> s; s.ends(5, 4, 43210, 13240, 24301, 4213 + 0); }
