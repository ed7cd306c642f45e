// PSO phases; one arbitrary particle (focus) and one arbitrary component (VP_K) tracked.
// The objective is the projection on the tracked component, so that a fitness identifies the position it belongs to.
#include <array>
#include <vector>
#include "vp.h"
#include <HeuristicFlow/PSO>
using namespace heu;
static int calls = 0;
template <class V> double comp(const V& v) { return v[VP_K()]; }
template <> double comp(const Eigen::MatrixXd& v) { return v(VP_K()); }
template <class V> void fitf(const V* v, double* f) { *f = comp(*v); calls++; }
template <class V> void ini(V* p, V* v) { VP_havoc_elems(*p); VP_havoc_elems(*v); }
template <class V> struct Sz { static constexpr int n = 0; };
template <std::size_t N> struct Sz<std::array<double, N>> { static constexpr int n = N; };
template <int N> struct Sz<Eigen::Array<double, N, 1>> { static constexpr int n = N > 0 ? N : 0; };
template <int N> struct Sz<Eigen::Array<double, 1, N>> { static constexpr int n = N > 0 ? N : 0; };
template <class V, BoxShape BS, FitnessOption FO, bool CT>
struct Ps : std::conditional<CT, PSO<V, BS, FO, RECORD_FITNESS, void, fitf<V>>, PSO<V, BS, FO, DONT_RECORD_FITNESS>>::type {
  using B = typename std::conditional<CT, PSO<V, BS, FO, RECORD_FITNESS, void, fitf<V>>, PSO<V, BS, FO, DONT_RECORD_FITNESS>>::type;
  using Particle = typename B::Particle_t;
  int dim;
  double lo, hi, vm;
  static constexpr bool sq = BS == BoxShape::SQUARE_BOX;
  static bool better(double a, double b) { return FO == FITNESS_LESS_BETTER ? a < b : a > b; }
  void shape(V& v) {
    if constexpr (Sz<V>::n == 0) v.resize(dim);
    VP_havoc_elems(v);
  }
  void prep() {
    dim = Sz<V>::n ? Sz<V>::n : VP_any_int();
    VP_assume(dim >= 1 && dim <= 100000);
    VP_dims(dim);
    if constexpr (Sz<V>::n == 0) this->setDimensions(dim);
    PSOOption o;
    o.populationSize = VP_any_size();
    VP_assume(o.populationSize >= 1 && o.populationSize <= 1000000);
    o.maxGeneration = VP_any_size(); o.maxFailTimes = VP_any_size();
    o.inertiaFactor = VP_any_double(); o.learnFactorP = VP_any_double(); o.learnFactorG = VP_any_double();
    this->setOption(o);
    if constexpr (sq) {
      lo = VP_any_double(); hi = VP_any_double(); vm = VP_any_double();
      VP_assume(lo < hi); VP_assume(vm > 0);
      this->setPVRange(lo, hi, vm);
      VP_assert(this->posMin() == lo && this->posMax() == hi && this->maxVelocity() == vm, "range_accessors");
    } else {
      V a, b, c;
      shape(a); shape(b); shape(c);
      lo = comp(a); hi = comp(b); vm = comp(c);
      VP_assume(lo < hi); VP_assume(vm > 0);
      this->setPVRange(a, b, c);
      VP_assert(comp(this->posMin()) == lo && comp(this->posMax()) == hi && comp(this->maxVelocity()) == vm, "range_accessors");
    }
    VP_assert(this->posMin(VP_K()) == lo && this->posMax(VP_K()) == hi && this->maxVelocity(VP_K()) == vm, "range_accessors");
    VP_assert(this->dimensions() == dim, "dimensions");
    if constexpr (!CT) this->setfFun(fitf<V>);
    calls = 0;
  }
  template <class P> void point(P& p) {
    shape(p.position);
    p.fitness = comp(p.position);
  }
  void fillpop(bool focus) {
    if (focus) VP_focus_elems<Particle>();
    std::size_t n = VP_any_size();
    VP_assume(n >= 1 && n <= 1000000);
    this->_population.resize(n);
    VP_each(this->_population, [this](Particle& i) {
      point(i);
      shape(i.velocity);
      point(i.pBest);
    });
    point(this->gBest);
    this->_failTimes = VP_any_size();
    VP_assume(this->_failTimes <= 1000000);
    this->_generation = VP_any_size();
  }
  void in_box(const Particle& i) {
    VP_assert(lo <= comp(i.position) && comp(i.position) <= hi, "position_in_box");
    VP_assert(-vm <= comp(i.velocity) && comp(i.velocity) <= vm, "velocity_in_range");
  }
  void init() {
    prep();
    VP_prefix();
    VP_focus_elems<Particle>();
    this->initializePop();
    VP_reach("after");
    VP_assert(this->population().size() == this->option().populationSize, "init_size");
    VP_assert(this->generation() == 0 && this->failTimes() == 0, "init_counters");
    VP_assert(this->gBest.fitness == comp(this->gBest.position), "best_matches_its_position");
    for (const auto& i : this->population()) if (VP_is_focus(i)) {
      in_box(i);
      VP_assert(int(i.position.size()) == dim && int(i.velocity.size()) == dim, "init_dimensions");
      VP_assert(i.fitness == comp(i.position), "fitness_of_own_position");
      VP_assert(comp(i.pBest.position) == comp(i.position) && i.pBest.fitness == i.fitness, "init_pbest");
    }
  }
  void dims() {
    if constexpr (Sz<V>::n == 0) {
      const int d0 = VP_any_int(), d1 = VP_any_int();
      VP_assume(d0 >= 1 && d0 <= 100000);
      VP_assume(d1 >= 1 && d1 <= 100000);
      this->setDimensions(d0);
      VP_assert(this->dimensions() == d0, "dimensions");
      this->setDimensions(d1);
      VP_assert(this->dimensions() == d1, "dimensions");
      if constexpr (!sq) VP_assert(int(this->posMin().size()) == d1 && int(this->posMax().size()) == d1 && int(this->maxVelocity().size()) == d1, "dimensions");
    }
    VP_reach("after");
  }
  void fit(bool focus) {
    prep();
    fillpop(focus);
    for (auto& i : this->_population) i.fitness = VP_any_double();
    const int n = int(this->_population.size());
    this->__impl_computeAllFitness();
    VP_reach("after");
    if (!focus) VP_assert(calls == n && int(this->_population.size()) == n, "one_evaluation_per_particle");
    for (const auto& i : this->population()) if (VP_is_focus(i)) VP_assert(i.fitness == comp(i.position), "fitness_of_own_position");
  }
  // MODE 1: the global best already covers the particle's best. 2: the particle's best is its current point.
  template <int MODE> void best(bool focus) {
    prep();
    fillpop(focus);
    const double g0 = this->gBest.fitness;
    const std::size_t f0 = this->_failTimes;
    double pf = 0, pb = 0, px = 0, pv = 0;
    for (const auto& i : this->_population) if (VP_is_focus(i)) {
      pf = i.fitness; pb = i.pBest.fitness; px = comp(i.position); pv = comp(i.velocity);
      if (MODE == 1) { if (FO == FITNESS_LESS_BETTER) VP_assume(g0 <= pb); else VP_assume(pb <= g0); }
      if (MODE == 2) { VP_assume(pb == pf); VP_assume(comp(i.pBest.position) == px); }
    }
    this->__impl_updatePGBest();
    VP_reach("after");
    const double g = this->gBest.fitness;
    VP_assert(!better(g0, g), "best_never_worsens");
    VP_assert(this->_failTimes == (better(g, g0) ? 0 : f0 + 1), "fail_counter");
    VP_assert(g == comp(this->gBest.position), "best_matches_its_position");
    VP_assert(this->bestFitness() == g, "best_accessor");
    for (const auto& i : this->population()) if (VP_is_focus(i)) {
      VP_assert(!better(i.pBest.fitness, g), "best_covers_particles");
      VP_assert(i.pBest.fitness == (better(pf, pb) ? pf : pb), "particle_best");
      VP_assert(i.pBest.fitness == comp(i.pBest.position), "best_matches_its_position");
      VP_assert(comp(i.position) == px && i.fitness == pf && comp(i.velocity) == pv, "particle_untouched");
    }
  }
  // MODE 0: arbitrary factors. 1: inertia only, no limit reached. 2, 3: velocity limit reached from above, below.
  // 4: towards the particle's best (above it). 5: towards the global best (below). 6, 7: box reached above, below.
  template <int MODE> void move(bool focus) {
    prep();
    if (MODE) this->_option.learnFactorP = this->_option.learnFactorG = 0;
    if (MODE == 4 || MODE == 5) {
      this->_option.inertiaFactor = 0;
      if (MODE == 4) this->_option.learnFactorP = 1;
      else this->_option.learnFactorG = 1;
    }
    if (MODE == 6 || MODE == 7) this->_option.inertiaFactor = 1;
    fillpop(focus);
    double px = 0, pv = 0, pb = 0, pf = 0, pbf = 0, u = 0;
    const double gb = comp(this->gBest.position), gf = this->gBest.fitness;
    const std::size_t n = this->_population.size();
    for (const auto& i : this->_population) if (VP_is_focus(i)) {
      px = comp(i.position); pv = comp(i.velocity); pb = comp(i.pBest.position); pf = i.fitness; pbf = i.pBest.fitness;
      if (MODE) { VP_assume(lo <= px); VP_assume(px <= hi); }
      if (MODE >= 1 && MODE <= 3) u = this->_option.inertiaFactor * pv;
      if (MODE == 1) { VP_assume(-vm <= u); VP_assume(u <= vm); VP_assume(lo <= px + u); VP_assume(px + u <= hi); }
      if (MODE == 2) { VP_assume(vm < u); VP_assume(px + vm <= hi); }
      if (MODE == 3) { VP_assume(u < -vm); VP_assume(lo <= px - vm); }
      if (MODE == 4) { VP_assume(px <= pb); VP_assume(pb <= hi); VP_assume(pb - px <= vm); }
      if (MODE == 5) { VP_assume(gb <= px); VP_assume(lo <= gb); VP_assume(px - gb <= vm); }
      if (MODE == 6) { VP_assume(-vm <= pv); VP_assume(pv <= vm); VP_assume(hi < px + pv); }
      if (MODE == 7) { VP_assume(-vm <= pv); VP_assume(pv <= vm); VP_assume(px + pv < lo); }
    }
    this->__impl_updatePopulation();
    VP_reach("after");
    if (!focus) VP_assert(this->_population.size() == n, "swarm_size");
    VP_assert(comp(this->gBest.position) == gb && this->gBest.fitness == gf, "best_untouched");
    for (const auto& i : this->population()) if (VP_is_focus(i)) {
      in_box(i);
      VP_assert(comp(i.pBest.position) == pb && i.pBest.fitness == pbf && i.fitness == pf, "particle_best_untouched");
      const double v = comp(i.velocity), x = comp(i.position);
      if (MODE == 1) VP_assert(v == u, "inertia_term");
      if (MODE == 2) VP_assert(v == vm, "velocity_limit");
      if (MODE == 3) VP_assert(v == -vm, "velocity_limit");
      if (MODE == 4) VP_assert(0 <= v && v <= pb - px, "attraction_term");
      if (MODE == 5) VP_assert(v <= 0 && v >= gb - px, "attraction_term");
      if (MODE == 6) VP_assert(x == hi, "position_limit");
      if (MODE == 7) VP_assert(x == lo, "position_limit");
      if (MODE >= 1 && MODE <= 5) VP_assert(x == px + v, "position_moves_by_velocity");
    }
  }
};
#define H(N, V, BS, FO, CT) \
 void N##_init() { Ps<V, BoxShape::BS, FO, CT> s; s.init(); } \
 void N##_dims() { Ps<V, BoxShape::BS, FO, CT> s; s.dims(); } \
 void N##_fit() { Ps<V, BoxShape::BS, FO, CT> s; s.fit(false); } \
 void N##_ffit() { Ps<V, BoxShape::BS, FO, CT> s; s.fit(true); } \
 void N##_best() { Ps<V, BoxShape::BS, FO, CT> s; s.template best<0>(false); } \
 void N##_fbest1() { Ps<V, BoxShape::BS, FO, CT> s; s.template best<1>(true); } \
 void N##_fbest2() { Ps<V, BoxShape::BS, FO, CT> s; s.template best<2>(true); } \
 void N##_move() { Ps<V, BoxShape::BS, FO, CT> s; s.template move<0>(false); } \
 void N##_fmove() { Ps<V, BoxShape::BS, FO, CT> s; s.template move<0>(true); } \
 void N##_fmove1() { Ps<V, BoxShape::BS, FO, CT> s; s.template move<1>(true); } \
 void N##_fmove2() { Ps<V, BoxShape::BS, FO, CT> s; s.template move<2>(true); } \
 void N##_fmove3() { Ps<V, BoxShape::BS, FO, CT> s; s.template move<3>(true); } \
 void N##_fmove4() { Ps<V, BoxShape::BS, FO, CT> s; s.template move<4>(true); } \
 void N##_fmove5() { Ps<V, BoxShape::BS, FO, CT> s; s.template move<5>(true); } \
 void N##_fmove6() { Ps<V, BoxShape::BS, FO, CT> s; s.template move<6>(true); } \
 void N##_fmove7() { Ps<V, BoxShape::BS, FO, CT> s; s.template move<7>(true); }
using SA = std::array<double, 6>;
using SV = std::vector<double>;
using EF = Eigen::Array<double, 6, 1>;
using EV = Eigen::ArrayXd;
H(sas, SA, SQUARE_BOX, FITNESS_LESS_BETTER, true)
H(sar, SA, RECTANGLE_BOX, FITNESS_GREATER_BETTER, false)
H(svs, SV, SQUARE_BOX, FITNESS_GREATER_BETTER, false)
H(svr, SV, RECTANGLE_BOX, FITNESS_LESS_BETTER, true)
H(efs, EF, SQUARE_BOX, FITNESS_GREATER_BETTER, true)
H(efr, EF, RECTANGLE_BOX, FITNESS_LESS_BETTER, false)
H(evs, EV, SQUARE_BOX, FITNESS_LESS_BETTER, false)
H(evr, EV, RECTANGLE_BOX, FITNESS_GREATER_BETTER, true)
