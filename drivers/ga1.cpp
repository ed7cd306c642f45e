#include "soga.h"
using namespace heu;
static void ini(Var* v) { v->x = VP_any_double(); v->evald = false; }
static void fitf(const Var* v, double* f) {
  if (VP_is_focus(*v)) VP_assert(!v->evald, "evaluated_once");
  v->evald = true;
  double q = VP_any_double();
  v->fit = q;
  *f = q;
}
static void cro(const Var* a, const Var* b, Var* c, Var* d) {
  if (VP_is_focus(*a)) VP_assert(a->evald, "parents_evaluated");
  c->x = a->x; d->x = b->x; c->evald = false; d->evald = false;
}
static void mut(const Var* a, Var* c) { c->x = VP_any_double(); c->evald = false; }

template <SelectMethod SM, FitnessOption FO>
void chk() {
  using S = SOGA<Var, FO, RECORD_FITNESS, SM>;
  S s;
  GAOption o;
  o.populationSize = VP_any_size();
  o.maxGenerations = VP_any_size();
  o.maxFailTimes = VP_any_size();
  o.crossoverProb = VP_any_double();
  o.mutateProb = VP_any_double();
  VP_assume(o.populationSize >= 4 && o.populationSize <= 1000000);
  VP_assume(o.maxGenerations <= 1000000);
  s.setOption(o);
  s.setiFun(ini);
  s.setfFun(fitf);
  s.setcFun(cro);
  s.setmFun(mut);
  VP_focus_elems<typename S::Gene_t>();
  s.initializePop();
  s.run();
  VP_reach("after_run");
  VP_assert(s.population().size() == o.populationSize, "population_size");
  for (const auto& g : s.population()) {
    if (VP_is_focus(g)) {
      VP_assert(g.is_fitness_computed && g.decision_variable.evald, "survivor_evaluated");
      VP_assert(g.fitness == g.decision_variable.fit, "fitness_of_own_variable");
      if (FO == FITNESS_LESS_BETTER)
        VP_assert(s.bestFitness() <= g.fitness, "best_is_best");
      else
        VP_assert(s.bestFitness() >= g.fitness, "best_is_best");
    }
  }
  VP_assert(s.record().size() == s.generation() + 1, "record_per_gen");
}
void h_mc() { chk<SelectMethod::MonteCarlo, FITNESS_LESS_BETTER>(); }
void h_tr() { chk<SelectMethod::Truncation, FITNESS_LESS_BETTER>(); }
void h_rw() { chk<SelectMethod::RouletteWheel, FITNESS_LESS_BETTER>(); }
