// run-loop protocol of the particle swarm: phases replaced by stubs that only keep ghost counters
#include <array>
#include "vp.h"
#include <HeuristicFlow/PSO>
using namespace heu;
using V1 = std::array<double, 2>;
enum Ph { START, FIT, BEST, MOVE = START };
template <class S, bool REC>
struct Mock : S {
  int ph = START;
  std::size_t gens = 0;
  double best = 0;
  double bestFitness() const { return best; }
  void __impl_computeAllFitness() { VP_assert(ph == START, "phase_order"); ph = FIT; gens++; }
  void __impl_updatePGBest() {
    VP_assert(ph == FIT, "phase_order"); ph = BEST;
    best = VP_any_double();
    if (mode == 2 || VP_any_bool()) this->_failTimes = 0; else this->_failTimes++;
    if (mode == 3) VP_assume(gens <= this->_option.maxGeneration);
  }
  template <class T> void __impl_recordFitness() {
    VP_assert(ph == BEST, "phase_order");
    S::template __impl_recordFitness<T>();
    if constexpr (REC) {
      VP_assert(this->_record.size() == gens, "one_record_per_generation");
      VP_assert(this->_record.back() == best, "record_is_best");
    }
  }
  void __impl_updatePopulation() {
    VP_assert(ph == BEST, "phase_order"); ph = MOVE;
    VP_assert(!(gens > this->_option.maxGeneration), "stops_at_generation_limit");
    VP_assert(!(this->_option.maxFailTimes > 0 && this->_failTimes > this->_option.maxFailTimes), "stops_when_stagnating");
  }
  // 0: any run, 1: no stagnation limit, 2: a run that always improves, 3: a run that stays below the generation limit
  int mode;
  template <int MODE> void go() {
    mode = MODE;
    PSOOption o;
    o.populationSize = 10;
    o.maxGeneration = VP_any_size();
    o.maxFailTimes = VP_any_size();
    VP_assume(o.maxGeneration <= 1000000000);
    if (MODE == 1) o.maxFailTimes = 0;
    if (MODE >= 2) VP_assume(o.maxFailTimes >= 1);
    this->setOption(o);
    this->_generation = VP_any_size();
    this->_failTimes = VP_any_size();
    if constexpr (REC) while (VP_any_bool()) this->_record.emplace_back(VP_any_double());
    this->template __impl_run<Mock>();
    VP_reach("after");
    VP_assert(ph == BEST, "ends_with_updated_best");
    VP_assert(this->generation() + 1 == gens, "generation_count");
    if (MODE == 1 || MODE == 2) VP_assert(this->generation() == o.maxGeneration, "stop_reason");
    if (MODE == 3) VP_assert(this->failTimes() > o.maxFailTimes, "stop_reason");
    if (MODE >= 1) VP_assert(this->generation() <= o.maxGeneration, "generation_limit");
    if constexpr (REC) VP_assert(this->record().size() == this->generation() + 1, "one_record_per_generation");
  }
};
#define ARG(...) __VA_ARGS__
#define RUN(NAME, ...) void NAME() { __VA_ARGS__ m; m.template go<0>(); } \
 void NAME##_unlimited() { __VA_ARGS__ m; m.template go<1>(); } \
 void NAME##_improves() { __VA_ARGS__ m; m.template go<2>(); } \
 void NAME##_stagnates() { __VA_ARGS__ m; m.template go<3>(); }
RUN(run_rec, ARG(Mock<PSO<V1, BoxShape::SQUARE_BOX, FITNESS_LESS_BETTER, RECORD_FITNESS>, true>))
RUN(run_norec, ARG(Mock<PSO<V1, BoxShape::RECTANGLE_BOX, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS>, false>))
RUN(run_args, ARG(Mock<PSO<Eigen::Array2d, BoxShape::SQUARE_BOX, FITNESS_GREATER_BETTER, RECORD_FITNESS, int>, true>))
