// which individuals the selection methods keep on small populations of any fitness
#include "vp.h"
#include <HeuristicFlow/Genetic>
#include "soga.h"
using namespace heu;
template <SelectMethod SM, FitnessOption FO>
struct Fair : SOGA<Var, FO, DONT_RECORD_FITNESS, SM> {
  using B = SOGA<Var, FO, DONT_RECORD_FITNESS, SM>;
  double f[6];
  int K, keep;
  // individuals are numbered from the best; ORDER lists them by place, first place in the last digit
  void start(int k, int kp, int order) {
    K = k; keep = kp;
    GAOption o;
    o.populationSize = keep;
    this->setOption(o);
    for (int i = 0; i < K; i++) f[i] = VP_any_double();
    for (int i = 0; i + 1 < K; i++) VP_assume(FO == FITNESS_LESS_BETTER ? f[i] < f[i + 1] : f[i] > f[i + 1]);
    this->_population.clear();
    for (int i = 0; i < K; i++) {
      this->_population.emplace_back();
      auto& g = this->_population.back();
      g.decision_variable.x = order % 10;
      g.is_fitness_computed = true;
      g.fitness = f[order % 10];
      order /= 10;
    }
    this->_bestGene = this->_population.begin();
    this->_failTimes = 0;
  }
  int copies(int k) { int n = 0; for (auto& g : this->_population) if (g.decision_variable.x == k) n++; return n; }
  void best(int sure) {
    this->__impl_select();
    VP_assert(int(this->_population.size()) == keep, "configured_size");
    for (int i = 0; i < sure; i++) VP_assert(copies(i) == 1, "best_survive");
    for (auto& g : this->_population) VP_assert(g.fitness == f[int(g.decision_variable.x)] && g.is_fitness_computed, "survivors_unchanged");
    VP_reach("after");
  }
};
#define BOTH(NAME, SM, ...) \
  void NAME##_l() { Fair<SelectMethod::SM, FITNESS_LESS_BETTER> s; __VA_ARGS__ } \
  void NAME##_g() { Fair<SelectMethod::SM, FITNESS_GREATER_BETTER> s; __VA_ARGS__ }
BOTH(tr4, Truncation, s.start(4, 2, 1302); s.best(2);)
BOTH(tr5, Truncation, s.start(5, 3, 31420); s.best(3);)
BOTH(tr5b, Truncation, s.start(5, 4, 24013); s.best(4);)
BOTH(el4, EliteReserved, s.start(4, 2, 1302); s.best(1);)
BOTH(el5, EliteReserved, s.start(5, 3, 31420); s.setEliteNum(2); s.best(2);)
BOTH(el5b, EliteReserved, s.start(5, 3, 2413); s.setEliteNum(3); s.best(3);)
BOTH(rw2, RouletteWheel, s.start(2, 1, 10); VP_draws(.25, 1.); s.best(1);)
BOTH(rw2b, RouletteWheel, s.start(2, 1, 1); VP_draws(.25, 1.); s.best(1);)
BOTH(su2, StochasticUniversal, s.start(2, 1, 10); VP_draws(0., .999999); s.best(1);)
BOTH(su2b, StochasticUniversal, s.start(2, 1, 1); VP_draws(0., .999999); s.best(1);)
BOTH(lr3, LinearRank, s.start(3, 1, 201); VP_draws(0., .9); s.best(1);)
BOTH(lr4, LinearRank, s.start(4, 2, 3201); s.setLinearSelectProbability(.25, .75); VP_draws(0., .75); s.best(1);)
BOTH(er2, ExponentialRank, s.start(2, 1, 1); VP_draws(0., .5); s.best(1);)
BOTH(er3, ExponentialRank, s.start(3, 1, 201); s.setExponetialSelectBase(.5); VP_draws(0., .5); s.best(1);)
BOTH(to4, Tournament, s.start(4, 3, 1302); s.setTournamentSize(2); s.best(0); VP_assert(s.copies(3) == 0, "worst_goes");)
BOTH(to4b, Tournament, s.start(4, 3, 2103); s.setTournamentSize(2); s.best(0); VP_assert(s.copies(3) == 0, "worst_goes");)
BOTH(to4c, Tournament, s.start(4, 3, 1230); s.setTournamentSize(2); s.best(0); VP_assert(s.copies(3) == 0, "worst_goes");)
#define TO5(NAME, ORDER, A, B) BOTH(NAME, Tournament, s.start(5, 4, ORDER); VP_draws(A, B); s.best(0); VP_assert(s.copies(4) == 0 && s.copies(3) == 0, "worst_goes");)
TO5(to5a, 13042, 0., .5) TO5(to5b, 13042, .5, 1.) TO5(to5c, 10342, 0., .5) TO5(to5d, 42103, .5, 1.) TO5(to5e, 1234, 0., .5) TO5(to5f, 43210, .5, 1.)
BOTH(to5, Tournament, s.start(5, 4, 13042); s.best(0); VP_assert(s.copies(4) == 0 && s.copies(3) == 0, "worst_goes");)
BOTH(rw3, RouletteWheel, s.start(3, 1, 120); VP_draws(0., .5); s.best(1);)
BOTH(rw3b, RouletteWheel, s.start(3, 2, 201); VP_draws(.25, 1.); s.best(1);)
BOTH(mc4, MonteCarlo, s.start(4, 2, 1302); s.best(0);)
BOTH(su3, StochasticUniversal, s.start(3, 2, 201); VP_draws(0., 1.); s.best(0);)
void bo2_g() { Fair<SelectMethod::Boltzmann, FITNESS_GREATER_BETTER> s; s.start(2, 1, 1); s.setBoltzmannSelectStrength(2.); VP_draws(.5, 1.); s.best(1); }
void bo2_l() { Fair<SelectMethod::Boltzmann, FITNESS_LESS_BETTER> s; s.start(2, 1, 10); s.setBoltzmannSelectStrength(-2.); VP_draws(0., .5); s.best(1); }
void bo2b_g() { Fair<SelectMethod::Boltzmann, FITNESS_GREATER_BETTER> s; s.start(2, 1, 10); s.setBoltzmannSelectStrength(2.); VP_draws(0., .5); s.best(1); }
void bo2b_l() { Fair<SelectMethod::Boltzmann, FITNESS_LESS_BETTER> s; s.start(2, 1, 1); s.setBoltzmannSelectStrength(-2.); VP_draws(.5, 1.); s.best(1); }
BOTH(er4, ExponentialRank, s.start(4, 2, 2031); VP_draws(0., .25); s.best(1);)
BOTH(lr2, LinearRank, s.start(2, 1, 1); VP_draws(0., .9); s.best(1);)
