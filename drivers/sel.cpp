#include "soga.h"
using namespace heu;
template <SelectMethod SM, FitnessOption FO>
struct Sel : SOGA<Var, FO, DONT_RECORD_FITNESS, SM> {
  using B = SOGA<Var, FO, DONT_RECORD_FITNESS, SM>;
  template <bool F> void go() {
    GAOption o;
    o.populationSize = VP_any_size();
    VP_assume(o.populationSize >= 4 && o.populationSize <= 1000000);
    this->setOption(o);
    std::size_t n = VP_any_size();
    VP_assume(n >= o.populationSize && n <= 4000000);
    if (F) VP_focus_elems<typename B::Gene_t>();
    this->_population.resize(n);
    for (auto& g : this->_population) { g.fitness = VP_any_double(); g.is_fitness_computed = true; }
    this->_bestGene = this->_population.begin();
    while (VP_any_bool()) {
      auto it = this->_bestGene; ++it;
      if (it == this->_population.end()) break;
      this->_bestGene = it;
    }
    this->_failTimes = VP_any_size();
    VP_assume(this->_failTimes <= 1000000);
    const std::size_t ft = this->_failTimes;
    const double prev = this->_bestGene->fitness;
    this->__impl_select();
    VP_reach("after_select");
    VP_assert(this->population().size() == o.populationSize, "population_size");
    const double b = this->bestFitness();
    const bool better = FO == FITNESS_LESS_BETTER ? b < prev : b > prev;
    VP_assert(this->_failTimes == (better ? 0 : ft + 1), "fail_counter");
    if (F) for (const auto& g : this->population()) if (VP_is_focus(g)) {
      VP_assert(FO == FITNESS_LESS_BETTER ? b <= g.fitness : b >= g.fitness, "best_is_best");
    }
  }
};
#define H(N, SM) void n_##N() { Sel<SelectMethod::SM, FITNESS_LESS_BETTER> s; s.template go<false>(); } \
 void f_##N() { Sel<SelectMethod::SM, FITNESS_LESS_BETTER> s; s.template go<true>(); }\
 void ng_##N() { Sel<SelectMethod::SM, FITNESS_GREATER_BETTER> s; s.template go<false>(); }\
 void g_##N() { Sel<SelectMethod::SM, FITNESS_GREATER_BETTER> s; s.template go<true>(); }
H(tr, Truncation) H(rw, RouletteWheel) H(to, Tournament) H(mc, MonteCarlo) H(pr, Probability)
H(lr, LinearRank) H(er, ExponentialRank) H(bo, Boltzmann) H(su, StochasticUniversal) H(el, EliteReserved)
