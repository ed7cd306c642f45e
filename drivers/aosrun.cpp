// run-loop protocol of the atomic orbital search: phases replaced by stubs that only keep ghost counters
#include <array>
#include "vp.h"
#include <HeuristicFlow/AOS>
using namespace heu;
using V1 = std::array<double, 2>;
enum Ph { START, FIT, BEST, SEL, LAYER };
template <class S, bool REC>
struct Mock : S {
  using E = typename S::Electron_t;
  int ph = START;
  std::size_t gens = 0;
  double best = 0;
  E be;
  void __impl_computeFitness() { VP_assert(ph == START, "phase_order"); ph = FIT; gens++; }
  void __impl_computeAtomBSBELE() {
    VP_assert(ph == FIT, "phase_order"); ph = BEST;
    best = VP_any_double();
    be.energy = best;
    this->_atomBestPtr = &be;
    if (mode == 1 || VP_any_bool()) this->_earlyStopCounter = 0; else this->_earlyStopCounter++;
    if (mode == 2) VP_assume(this->_generation < this->_option.maxGeneration);
  }
  void __impl_recordFitness() {
    VP_assert(ph == BEST, "phase_order");
    S::__impl_recordFitness();
    if constexpr (REC) {
      VP_assert(this->_record.size() == gens, "one_record_per_generation");
      VP_assert(this->_record.back() == best, "record_is_best");
    }
  }
  void __impl_selectAndMakeLayers() { VP_assert(ph == BEST, "phase_order"); ph = SEL; }
  void __impl_computeLayerBSBELE() {
    VP_assert(ph == SEL, "phase_order"); ph = LAYER;
    VP_assert(this->_generation < this->_option.maxGeneration, "stops_at_generation_limit");
    VP_assert(this->_earlyStopCounter < this->_option.maxEarlyStop, "stops_when_stagnating");
  }
  template <class T> void __impl_updateElectrons() { VP_assert(ph == LAYER, "phase_order"); ph = START; }
  // MODE 0: any run, 1: a run that always improves, 2: a run that stays below the generation limit
  int mode;
  template <int MODE> void go() {
    mode = MODE;
    AOSOption o;
    o.maxGeneration = VP_any_size();
    o.maxEarlyStop = VP_any_size();
    VP_assume(o.maxGeneration <= 1000000000);
    this->setOption(o);
    if (MODE == 1) VP_assume(o.maxEarlyStop >= 1);
    this->_generation = 0;
    this->_earlyStopCounter = 0;
    this->template __impl_run<Mock>();
    VP_reach("after");
    VP_assert(ph == SEL, "ends_with_selected_population");
    VP_assert(this->generation() + 1 == gens, "generation_count");
    VP_assert(this->generation() <= o.maxGeneration, "generation_limit");
    if (MODE == 1) VP_assert(this->generation() >= o.maxGeneration, "stop_reason");
    if (MODE == 2) VP_assert(this->earlyStopCounter() >= o.maxEarlyStop, "stop_reason");
    if constexpr (REC) VP_assert(this->record().size() == this->generation() + 1, "one_record_per_generation");
  }
};
template <class V> using CS = ContinousBox<V, BoxShape::SQUARE_BOX>;
template <class V> using CR = ContinousBox<V, BoxShape::RECTANGLE_BOX>;
using R = Mock<AOS<CS<V1>, FITNESS_LESS_BETTER, RECORD_FITNESS>, true>;
using N = Mock<AOS<CR<V1>, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS>, false>;
using A = Mock<AOS<CS<Eigen::Array2d>, FITNESS_GREATER_BETTER, RECORD_FITNESS, int>, true>;
#define RUN(S, NAME) void NAME() { S m; m.template go<0>(); } \
 void NAME##_improves() { S m; m.template go<1>(); } \
 void NAME##_stagnates() { S m; m.template go<2>(); }
RUN(R, run_rec) RUN(N, run_norec) RUN(A, run_args)
