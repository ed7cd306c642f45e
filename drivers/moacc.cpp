// what a multi-objective solver tells about its front and population
#include "vp.h"
#include <HeuristicFlow/Genetic>
using namespace heu;
struct MV { int id; };
template <class S, int N, FitnessOption FO>
struct Ac : S {
  using Gene = typename S::Gene_t;
  using Fit = typename S::Fitness_t;
  double f[4][3];
  static bool better(double a, double b) { return FO == FITNESS_LESS_BETTER ? a < b : a > b; }
  template <int K> void start() {
    if constexpr (Fit::RowsAtCompileTime == Eigen::Dynamic) this->setObjectiveNum(N);
    for (int i = 0; i < K; i++)
      for (int j = 0; j < N; j++) f[i][j] = VP_any_double();
    this->_population.clear();
    for (int i = 0; i < K; i++) {
      this->_population.emplace_back();
      Gene& g = this->_population.back();
      g.decision_variable.id = i;
      g.is_fitness_computed = true;
      if constexpr (Fit::RowsAtCompileTime == Eigen::Dynamic) g.fitness.resize(N);
      for (int j = 0; j < N; j++) g.fitness[j] = f[i][j];
    }
  }
  // solutions whose digit in MEMBERS is 1 form the front
  template <int K> void front(int members) {
    start<K>();
    int n = 0;
    bool in[K];
    this->_pfGenes.clear();
    int k = 0;
    for (auto& g : this->_population) {
      in[k] = members % 10;
      members /= 10;
      if (in[k]) { this->_pfGenes.emplace(&g); n++; }
      k++;
    }
    const S& c = *this;
    std::vector<Fit> a;
    a.emplace_back(this->_population.front().fitness);
    c.paretoFront(a);
    VP_assert(int(a.size()) == n, "front_size");
    std::vector<std::pair<const MV*, const Fit*>> b;
    b.emplace_back(&this->_population.front().decision_variable, &this->_population.front().fitness);
    c.paretoFront(b);
    VP_assert(int(b.size()) == n, "front_size");
    int seen[K], fits[K];
    for (int i = 0; i < K; i++) seen[i] = fits[i] = 0;
    for (int p = 0; p < n; p++) {
      const int id = b[p].first->id;
      VP_assert(in[id], "only_front_members");
      seen[id]++;
      for (int j = 0; j < N; j++) VP_assert((*b[p].second)[j] == f[id][j], "own_fitness");
    }
    for (int i = 0; i < K; i++) VP_assert(seen[i] == (in[i] ? 1 : 0), "every_front_member_once");
    // the fitness list is the fitness of every member, in some order
    for (int j = 0; j < N; j++) {
      double got = 0, want = 0;
      for (int p = 0; p < n; p++) got += a[p][j];
      for (int i = 0; i < K; i++) if (in[i]) want += f[i][j];
      VP_equal(got, want, "fitness_of_the_members");
    }
    VP_assert(int(c.pfGenes().size()) == n, "front_size");
    for (auto g : c.pfGenes()) VP_assert(in[g->decision_variable.id], "only_front_members");
    VP_reach("after");
  }
  template <int K> void ideal() {
    start<K>();
    const S& c = *this;
    const Fit b = c.bestFitness();
    for (int j = 0; j < N; j++) {
      bool attained = false;
      for (int i = 0; i < K; i++) {
        VP_assert(!better(f[i][j], b[j]), "nothing_beats_the_ideal");
        if (b[j] == f[i][j]) attained = true;
      }
      VP_assert(attained, "ideal_is_attained");
    }
    VP_reach("after");
  }
};
using A = NSGA2<MV, 2, FITNESS_LESS_BETTER>;
using B = NSGA2<MV, 3, FITNESS_GREATER_BETTER>;
using C = NSGA2<MV, Eigen::Dynamic, FITNESS_LESS_BETTER>;
using E = NSGA3<MV, 2>;
using G = NSGA3<MV, Eigen::Dynamic>;
#define D(NAME, S, N, FO) \
 void NAME##_one() { Ac<S, N, FO> s; s.template front<1>(1); } \
 void NAME##_some() { Ac<S, N, FO> s; s.template front<3>(101); } \
 void NAME##_none() { Ac<S, N, FO> s; s.template front<2>(0); } \
 void NAME##_all() { Ac<S, N, FO> s; s.template front<3>(111); } \
 void NAME##_ideal1() { Ac<S, N, FO> s; s.template ideal<1>(); } \
 void NAME##_ideal() { Ac<S, N, FO> s; s.template ideal<3>(); }
D(n2l, A, 2, FITNESS_LESS_BETTER)
D(n2g, B, 3, FITNESS_GREATER_BETTER)
D(n2d, C, 2, FITNESS_LESS_BETTER)
D(n3l, E, 2, FITNESS_LESS_BETTER)
D(n3d, G, 3, FITNESS_LESS_BETTER)
