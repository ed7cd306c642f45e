// GA phases other than selection, one arbitrary individual tracked.
#include "vp.h"
#include <HeuristicFlow/Genetic>
using namespace heu;
struct Gx {
  double x, x0;                // decision variable and a ghost copy taken before the phase
  mutable bool evald = false;  // ghost: the user's fitness function has seen it
  mutable double fit;          // ghost: what it returned
  bool old = false;            // ghost: existed before the phase
  bool made = false;           // ghost: written by a user operator
};
static int calls = 0;
static void ini(Gx* v) { v->x = VP_any_double(); v->evald = false; v->made = true; v->old = false; calls++; }
static void fitf(const Gx* v, double* f) {
  if (VP_is_focus(*v)) {
    VP_assert(!v->evald, "evaluated_once");
    VP_assert(VP_is_focus(*f), "fitness_slot");
  }
  v->evald = true;
  v->fit = VP_any_double();
  *f = v->fit;
}
static void cro(const Gx* a, const Gx* b, Gx* c, Gx* d) {
  VP_assert(!VP_same(a, b), "two_parents");
  VP_assert(!VP_same(c, d), "two_children");
  VP_assert(!VP_same<Gx, Gx>(a, c) && !VP_same<Gx, Gx>(a, d) && !VP_same<Gx, Gx>(b, c) && !VP_same<Gx, Gx>(b, d), "children_are_new");
  if (VP_is_focus(*a)) VP_assert(a->old, "parents_from_population");
  if (VP_is_focus(*b)) VP_assert(b->old, "parents_from_population");
  if (VP_is_focus(*c)) VP_assert(!c->old, "children_are_new");
  if (VP_is_focus(*d)) VP_assert(!d->old, "children_are_new");
  c->x = VP_any_double(); c->made = true; c->old = false; c->evald = false;
  d->x = VP_any_double(); d->made = true; d->old = false; d->evald = false;
  calls++;
}
static void mut(const Gx* a, Gx* c) {
  VP_assert(!VP_same<Gx, Gx>(a, c), "children_are_new");
  if (VP_is_focus(*a)) VP_assert(a->old, "parents_from_population");
  if (VP_is_focus(*c)) VP_assert(!c->old, "children_are_new");
  c->x = VP_any_double(); c->made = true; c->old = false; c->evald = false;
  calls++;
}
// C: the tracked individual starts with its fitness computed
template <bool CT, bool C, class S>
struct Ga : S {
  using G = typename S::Gene_t;
  void prep(bool focus) {
    GAOption o;
    o.populationSize = VP_any_size();
    o.maxGenerations = VP_any_size();
    o.maxFailTimes = VP_any_size();
    o.crossoverProb = VP_any_double();
    o.mutateProb = VP_any_double();
    VP_assume(o.mutateProb >= 0 && o.mutateProb <= 1 && o.crossoverProb >= 0 && o.crossoverProb <= 1);
    VP_assume(o.populationSize >= 1 && o.populationSize <= 1000000);
    this->setOption(o);
    if constexpr (!CT) {
      this->setiFun(ini); this->setfFun(fitf); this->setcFun(cro); this->setmFun(mut);
    }
    calls = 0;
    if (focus) VP_focus_elems<G>();
  }
  void fillpop(std::size_t lo) {
    std::size_t n = VP_any_size();
    VP_assume(n >= lo && n <= 4000000);
    this->_population.resize(n);
    for (auto& g : this->_population) {
      g.decision_variable.x = g.decision_variable.x0 = VP_any_double();
      g.decision_variable.old = true;
      g.decision_variable.made = true;
      g.decision_variable.fit = VP_any_double();
      if (VP_is_focus(g)) {
        g.is_fitness_computed = g.decision_variable.evald = C;
        if (C) g.fitness = g.decision_variable.fit;
      } else {
        g.is_fitness_computed = VP_any_bool();
        g.fitness = VP_any_double();
      }
    }
  }
  void old_kept(const G& g) {
    VP_assert(g.decision_variable.x == g.decision_variable.x0, "existing_unchanged");
    VP_assert(g.is_fitness_computed == g.decision_variable.evald, "cache_flag");
    if (g.is_fitness_computed) VP_assert(g.fitness == g.decision_variable.fit, "cached_fitness_kept");
  }
  void born(const G& g) {
    VP_assert(g.decision_variable.made, "child_written_by_operator");
    VP_assert(!g.is_fitness_computed, "child_uncomputed");
  }
  template <int WHAT> void go(bool focus) {
    prep(focus);
    fillpop(WHAT == 0 ? 0 : 1);
    if (WHAT == 0) for (auto& g : this->_population) g.decision_variable.made = false;
    const std::size_t n = this->_population.size();
    if (WHAT == 0) {
      this->initializePop();
      VP_reach("after");
      VP_assert(this->population().size() == this->option().populationSize, "init_size");
      VP_assert(calls == int(this->option().populationSize), "init_calls");
      for (const auto& g : this->population()) if (VP_is_focus(g)) born(g);
      return;
    }
    if (WHAT == 1) this->__impl_crossover();
    if (WHAT == 2) this->__impl_mutate();
    if (WHAT == 3) this->__impl_computeAllFitness();
    VP_reach("after");
    if (!focus) {
      if (WHAT == 1) { VP_assert(this->population().size() == n + 2 * std::size_t(calls), "two_children_per_mating");
        VP_assert(2 * calls <= int(n), "at_most_all_mate"); }
      if (WHAT == 2) { VP_assert(this->population().size() == n + std::size_t(calls), "one_child_per_mutation");
        VP_assert(calls <= int(n), "at_most_all_mutate"); }
      if (WHAT == 3) VP_assert(this->population().size() == n, "fitness_keeps_population");
    }
    for (const auto& g : this->population()) if (VP_is_focus(g)) {
      if (WHAT == 3) {
        VP_assert(g.is_fitness_computed && g.decision_variable.evald, "all_evaluated");
        VP_assert(g.fitness == g.decision_variable.fit, "fitness_of_own_variable");
        VP_assert(g.decision_variable.x == g.decision_variable.x0, "existing_unchanged");
      } else if (g.decision_variable.old) old_kept(g);
      else born(g);
    }
  }
};
template <bool C> using RT = Ga<false, C, SOGA<Gx, FITNESS_LESS_BETTER, RECORD_FITNESS, SelectMethod::Truncation>>;
template <bool C> using CT = Ga<true, C, SOGA<Gx, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, SelectMethod::Truncation, void, ini, fitf, cro, mut>>;
#define H(N, W) void r##N() { RT<true> s; s.template go<W>(false); } \
 void rf0##N() { RT<false> s; s.template go<W>(true); } void rf1##N() { RT<true> s; s.template go<W>(true); } \
 void c##N() { CT<true> s; s.template go<W>(false); } \
 void cf0##N() { CT<false> s; s.template go<W>(true); } void cf1##N() { CT<true> s; s.template go<W>(true); }
H(_init, 0) H(_cross, 1) H(_mut, 2) H(_fit, 3)
