// AOS phases; one arbitrary electron (focus) and one arbitrary component (VP_K) tracked.
// The objective is the projection on the tracked component, so that an energy identifies the state it belongs to.
#include <array>
#include <vector>
#include "vp.h"
#include <HeuristicFlow/AOS>
using namespace heu;
static int calls = 0;
template <class V> double comp(const V& v) { return v[VP_K()]; }
template <class V> void fitf(const V* v, double* f) { *f = comp(*v); calls++; }
template <class V> struct Sz { static constexpr int n = 0; };
template <std::size_t N> struct Sz<std::array<double, N>> { static constexpr int n = N; };
template <int N> struct Sz<Eigen::Array<double, N, 1>> { static constexpr int n = N > 0 ? N : 0; };
template <class V, class Box, FitnessOption FO, bool CT, bool SQ>
struct Ao : AOS<Box, FO, CT ? RECORD_FITNESS : DONT_RECORD_FITNESS, void, CT ? fitf<V> : nullptr> {
  using B = AOS<Box, FO, CT ? RECORD_FITNESS : DONT_RECORD_FITNESS, void, CT ? fitf<V> : nullptr>;
  using E = typename B::Electron_t;
  using L = typename B::Layer_t;
  int dim;
  double lo, hi, dl;
  static bool better(double a, double b) { return FO == FITNESS_LESS_BETTER ? a < b : a > b; }
  void shape(V& v) {
    if constexpr (Sz<V>::n == 0) v.resize(dim);
    VP_havoc_elems(v);
  }
  bool unit = false;
  void prep() {
    dim = Sz<V>::n ? Sz<V>::n : VP_any_int();
    VP_assume(dim >= 1 && dim <= 100000);
    VP_dims(dim);
    if constexpr (SQ) {
      lo = VP_any_double(); hi = VP_any_double(); dl = VP_any_double();
      VP_assume(lo < hi); VP_assume(dl > 0);
      if (unit) dl = 2;
      if constexpr (Sz<V>::n == 0) this->setDimensions(dim);
      this->setRange(lo, hi);
      this->setDelta(dl);
    } else {
      V a, b, d;
      shape(a); shape(b); shape(d);
      if (unit) for (int i = 0; i < dim; i++) d[i] = 2;
      lo = comp(a); hi = comp(b); dl = comp(d);
      VP_assume(lo < hi); VP_assume(dl > 0);
      this->setRange(a, b);
      this->setDelta(d);
    }
    AOSOption o;
    o.electronNum = VP_any_size();
    o.maxLayerNum = VP_any_size();
    VP_assume(o.electronNum >= 1 && o.electronNum <= 1000000);
    VP_assume(o.maxLayerNum >= 1 && o.maxLayerNum <= o.electronNum);
    o.maxGeneration = VP_any_size(); o.maxEarlyStop = VP_any_size();
    o.photonRate = VP_any_double();
    this->setOption(o);
    if constexpr (!CT) this->setfFun(fitf<V>);
    calls = 0;
  }
  // every electron: computed or not; its energy is the one of its state
  template <bool CONST> void fillpop(bool focus, bool computed, std::size_t least) {
    if (focus) VP_focus_elems<E>();
    std::size_t n = VP_any_size();
    VP_assume(n >= least && n <= 4000000);
    this->_electrons.resize(n);
    VP_each(this->_electrons, [this, computed](E& e) {
      shape(e.state);
      if (CONST) VP_assume(comp(e.state) == 3);
      e.energy = CONST ? 3 : comp(e.state);
      e.isComputed = computed;
    });
    this->_atomBestPtr = &this->_electrons.front();
    this->_earlyStopCounter = VP_any_size();
    VP_assume(this->_earlyStopCounter <= 1000000);
    this->_generation = VP_any_size();
    this->_bindingEnergy = VP_any_double();
    shape(this->_bindingState);
  }
  void init() {
    prep();
    VP_prefix();
    VP_focus_elems<E>();
    this->initializePop();
    VP_reach("after");
    VP_assert(this->electrons().size() == this->option().electronNum, "init_size");
    VP_assert(this->generation() == 0 && this->earlyStopCounter() == 0, "init_counters");
    VP_assert(this->layers().size() == 0, "init_counters");
    if constexpr (CT) VP_assert(this->record().size() == 0, "init_counters");
    const double touch = this->bestElectron().isComputed;
    for (const auto& e : this->electrons()) if (VP_is_focus(e)) {
      VP_assert(int(e.state.size()) == dim, "init_dimensions");
      VP_assert(lo <= comp(e.state) && comp(e.state) <= hi, "state_in_box");
      VP_assert(!e.isComputed, "new_electron_uncomputed");
    }
  }
  template <bool C> void fit(bool focus) {
    prep();
    fillpop<false>(focus, false, 1);
    for (auto& e : this->_electrons) {
      if (VP_is_focus(e)) e.isComputed = C; else e.isComputed = VP_any_bool();
      if (!e.isComputed) e.energy = VP_any_double();
    }
    const std::size_t n = this->_electrons.size();
    this->__impl_computeFitness();
    VP_reach("after");
    VP_assert(this->_electrons.size() == n, "population_untouched");
    for (const auto& e : this->electrons()) if (VP_is_focus(e)) {
      VP_assert(e.isComputed, "flag_set");
      VP_assert(e.energy == comp(e.state), "energy_of_own_state");
    }
  }
  void best(bool focus) {
    prep();
    fillpop<false>(focus, true, 1);
    for (const auto& e : this->_electrons) if (VP_any_bool()) this->_atomBestPtr = &e;   // any electron was the best
    const double p = this->_atomBestPtr->energy;
    const std::size_t c = this->_earlyStopCounter;
    double fe = 0;
    for (const auto& e : this->electrons()) if (VP_is_focus(e)) fe = e.energy;
    this->__impl_computeAtomBSBELE();
    VP_reach("after");
    const double b = this->bestElectron().energy;
    VP_assert(this->_earlyStopCounter == (b == p ? c + 1 : 0), "early_stop_counter");
    VP_assert(b == comp(this->bestElectron().state), "energy_of_own_state");
    for (const auto& e : this->electrons()) if (VP_is_focus(e)) {
      VP_assert(!better(e.energy, b), "best_is_best");
      VP_assert(e.energy == fe && comp(e.state) == fe, "electrons_untouched");
    }
  }
  void mean() {
    prep();
    fillpop<true>(false, true, 1);
    this->__impl_computeAtomBSBELE();
    VP_reach("after");
    VP_assert(this->bindingEnergy() == 3, "binding_energy_is_mean");
    VP_assert(comp(this->bindingState()) == 3, "binding_state_is_mean");
  }
  // MODE 0: no electron followed, 1: an arbitrary one, 2: one strictly better than every other
  template <int MODE> void sel() {
    prep();
    fillpop<false>(MODE != 0, true, 1);
    if (MODE == 2) {
      fe = VP_any_double();
      VP_each(this->_electrons, [this](E& e) { if (!VP_is_focus(e)) VP_assume(better(fe, e.energy)); });
    }
    const std::size_t n = this->_electrons.size();
    VP_assume(n >= this->_option.electronNum);
    bool has = false;
    for (auto& e : this->_electrons) if (VP_is_focus(e)) {
      if (MODE == 2) { e.energy = fe; }
      fe = e.energy;
      has = true;
    }
    if (MODE) VP_assume(has);
    this->__impl_selectAndMakeLayers();
    VP_reach("after");
    VP_assert(this->_electrons.size() == this->_option.electronNum, "population_size");
    if (MODE == 0) VP_assert(this->layers().size() >= 1 && this->layers().size() <= this->_option.maxLayerNum, "layer_count");
    const double b = this->bestElectron().energy;
    for (const auto& e : this->electrons()) if (VP_is_focus(e)) {
      if (MODE == 1) VP_assert(!better(e.energy, b), "best_is_best");
      VP_assert(e.energy == fe, "electrons_untouched");
    }
    if (MODE == 2) VP_assert(b == fe, "best_survives");
  }
  double fe;
  // MODE 0: no electron followed, 1: an arbitrary electron of the layer followed, 2: all states and energies equal
  template <int MODE> void layer() {
    prep();
    fillpop<MODE == 2>(MODE == 1, true, 1);
    this->_layers.resize(1);
    this->_layers[0].reserve(this->_electrons.size());
    for (auto& e : this->_electrons) this->_layers[0].emplace_back(&e);
    this->__impl_computeLayerBSBELE();
    VP_reach("after");
    L& l = this->_layers[0];
    VP_assert(l.layerBestIdx >= 0 && l.layerBestIdx < int(l.size()), "layer_best_index");
    if (MODE == 2) {
      VP_assert(l.bindingEnergy == 3, "binding_energy_is_mean");
      VP_assert(comp(l.bindingState) == 3, "binding_state_is_mean");
    }
    if (MODE == 1) {
      const double b = l.layerBestEnergy();
      VP_assert(b == comp(l.layerBestState()), "layer_best_pair");
      for (const auto& e : this->electrons()) if (VP_is_focus(e)) VP_assert(!better(e.energy, b), "layer_best_is_best");
    }
  }
  // two layers of different sizes, all states and energies equal
  void layers2() {
    prep();
    fillpop<true>(false, true, 1);
    this->_layers.resize(2);
    L& l0 = this->_layers[0];
    L& l1 = this->_layers[1];
    l1.emplace_back(&this->_electrons.front());
    for (auto& e : this->_electrons) l0.emplace_back(&e);
    this->__impl_computeLayerBSBELE();
    VP_reach("after");
    for (int k = 0; k < 2; k++) {
      L& l = this->_layers[k];
      VP_assert(l.layerBestIdx >= 0 && l.layerBestIdx < int(l.size()), "layer_best_index");
      VP_assert(l.bindingEnergy == 3, "binding_energy_is_mean");
      VP_assert(comp(l.bindingState) == 3, "binding_state_is_mean");
    }
  }
  // one child of an arbitrary parent inside the box.  MODE 0: any photon, 1: non-photon with step 2, 4: with any step, 2: photon of a parent better than its layer,
  // 3: photon of any other parent; 2 and 3 with the attracting state on one side of the repelling one
  template <int MODE> void child() {
    unit = MODE == 1;
    prep();
    E par, chi, lb, ab;
    L lay;
    if constexpr (Sz<V>::n != 0) shape(chi.state);
    shape(par.state); shape(lb.state); shape(ab.state); shape(lay.bindingState); shape(this->_bindingState);
    const double p = comp(par.state);
    VP_assume(lo <= p); VP_assume(p <= hi);
    par.energy = VP_any_double(); lay.bindingEnergy = VP_any_double();
    lb.energy = VP_any_double(); ab.energy = VP_any_double();
    par.isComputed = true; lb.isComputed = true; ab.isComputed = true;
    lay.emplace_back(&lb);
    lay.layerBestIdx = 0;
    this->_atomBestPtr = &ab;
    if (MODE == 1) { VP_assume(lo <= p - dl); VP_assume(p + dl <= hi); }
    if (MODE == 2 || MODE == 3) VP_assume(p + 2 <= hi);
    if (MODE == 2) {
      VP_assume(better(par.energy, lay.bindingEnergy));
      VP_assume(comp(lb.state) == 2); VP_assume(comp(lay.bindingState) == 0);
      VP_assume(comp(ab.state) == -1); VP_assume(comp(this->_bindingState) == 1);
    }
    if (MODE == 3) {
      VP_assume(better(lay.bindingEnergy, par.energy));
      VP_assume(comp(lb.state) == -1); VP_assume(comp(lay.bindingState) == 1);
      VP_assume(comp(ab.state) == 2); VP_assume(comp(this->_bindingState) == 0);
    }
    if (MODE == 1 || MODE == 4) this->__impl2_applyNonPhotonEffect(par, &chi);
    else this->__impl2_applyPhotonEffect(par, lay, 0, &chi);
    VP_reach("after");
    VP_assert(int(chi.state.size()) == dim, "child_dimensions");
    const double c = comp(chi.state);
    VP_assert(lo <= c && c <= hi, "state_in_box");
    if (MODE == 1) VP_assert(c - p <= dl && p - c <= dl, "step_size");
    if (MODE == 2) VP_assert(c >= p, "towards_layer_best");
    if (MODE == 2) VP_assert(c <= p + comp(lb.state), "towards_layer_best");
    if (MODE == 3) VP_assert(c >= p, "towards_atom_best");
    if (MODE == 3) VP_assert(c <= p + comp(ab.state), "towards_atom_best");
    VP_assert(comp(par.state) == p, "parent_untouched");
  }
  // the update phase with the two effects replaced by counters
  struct Upd : Ao {
    int photons = 0, others = 0;
    void __impl2_applyPhotonEffect(const E&, const L&, int, E* c) { photons++; this->shape(c->state); }
    void __impl2_applyNonPhotonEffect(const E&, E* c) { others++; this->shape(c->state); }
    template <int LAYERS> void go() {
      this->prep();
      this->template fillpop<false>(false, true, LAYERS);
      const std::size_t n = this->_electrons.size();
      this->_layers.resize(LAYERS);
      for (int k = 0; k < LAYERS; k++)
        for (auto& e : this->_electrons) this->_layers[k].emplace_back(&e);
      if (LAYERS == 1) this->_option.photonRate = 0;
      VP_focus_elems<E>();
      this->template __impl_updateElectrons<Upd>();
      VP_reach("after");
      VP_assert(this->_electrons.size() == (LAYERS + 1) * n, "one_child_per_electron");
      VP_assert(std::size_t(photons + others) == LAYERS * n, "one_child_per_electron");
      if (LAYERS == 1) VP_assert(others == 0, "photon_rate");
      for (const auto& e : this->electrons()) if (VP_is_focus(e)) VP_assert(!e.isComputed, "new_electron_uncomputed");
    }
  };
};
#define H(N, V, BOX, FO, CT, SQ) \
 void N##_init() { Ao<V, BOX, FO, CT, SQ> s; s.init(); } \
 void N##_fit() { Ao<V, BOX, FO, CT, SQ> s; s.template fit<false>(false); } \
 void N##_ffit0() { Ao<V, BOX, FO, CT, SQ> s; s.template fit<false>(true); } \
 void N##_ffit1() { Ao<V, BOX, FO, CT, SQ> s; s.template fit<true>(true); } \
 void N##_best() { Ao<V, BOX, FO, CT, SQ> s; s.best(false); } \
 void N##_fbest() { Ao<V, BOX, FO, CT, SQ> s; s.best(true); } \
 void N##_mean() { Ao<V, BOX, FO, CT, SQ> s; s.mean(); } \
 void N##_sel() { Ao<V, BOX, FO, CT, SQ> s; s.template sel<0>(); } \
 void N##_fsel() { Ao<V, BOX, FO, CT, SQ> s; s.template sel<1>(); } \
 void N##_layer() { Ao<V, BOX, FO, CT, SQ> s; s.template layer<0>(); } \
 void N##_flayer() { Ao<V, BOX, FO, CT, SQ> s; s.template layer<1>(); } \
 void N##_mlayer() { Ao<V, BOX, FO, CT, SQ> s; s.template layer<2>(); } \
 void N##_photon() { Ao<V, BOX, FO, CT, SQ> s; s.template child<0>(); } \
 void N##_photon2() { Ao<V, BOX, FO, CT, SQ> s; s.template child<2>(); } \
 void N##_photon3() { Ao<V, BOX, FO, CT, SQ> s; s.template child<3>(); } \
 void N##_nphoton() { Ao<V, BOX, FO, CT, SQ> s; s.template child<1>(); } \
 void N##_nphoton0() { Ao<V, BOX, FO, CT, SQ> s; s.template child<4>(); } \
 void N##_mlayers() { Ao<V, BOX, FO, CT, SQ> s; s.layers2(); } \
 void N##_upd1() { typename Ao<V, BOX, FO, CT, SQ>::Upd s; s.template go<1>(); } \
 void N##_bsel() { Ao<V, BOX, FO, CT, SQ> s; s.template sel<2>(); }
using SA = std::array<double, 6>;
using SV = std::vector<double>;
using EF = Eigen::Array<double, 6, 1>;
using EV = Eigen::ArrayXd;
template <class V> using CS = ContinousBox<V, BoxShape::SQUARE_BOX>;
template <class V> using CR = ContinousBox<V, BoxShape::RECTANGLE_BOX>;
H(sas, SA, CS<SA>, FITNESS_LESS_BETTER, true, true)
H(svr, SV, CR<SV>, FITNESS_GREATER_BETTER, false, false)
H(efr, EF, CR<EF>, FITNESS_LESS_BETTER, false, false)
H(evs, EV, CS<EV>, FITNESS_GREATER_BETTER, true, true)
