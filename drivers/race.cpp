// solvers with user functions that touch nothing but their arguments, for the OpenMP region analysis
#include "vp.h"
#include <HeuristicFlow/Global>
#include <HeuristicFlow/Genetic>
#include <HeuristicFlow/PSO>
#include <HeuristicFlow/AOS>
#include <array>
#include <vector>
using namespace heu;
using A3 = std::array<double, 3>;
using VD = std::vector<double>;
using E3 = Eigen::Array<double, 3, 1>;
using EX = Eigen::ArrayXd;
struct Arg { double k; };

template <class V> void gi(V* v) { *v = V(); }
template <class V, class F> void gf(const V*, F* f) { *f = F(); }
template <class V> void gc(const V* a, const V* b, V* c, V* d) { *c = *a; *d = *b; }
template <class V> void gm(const V* a, V* b) { *b = *a; }
template <class V> void ai(V* v, const Arg*) { *v = V(); }
template <class V, class F> void af(const V*, const Arg*, F* f) { *f = F(); }
template <class V> void ac(const V* a, const V* b, V* c, V* d, const Arg*) { *c = *a; *d = *b; }
template <class V> void am(const V* a, V* b, const Arg*) { *b = *a; }

template <class S> void gaRun(S& s) {
  GAOption o;
  s.setOption(o);
  s.initializePop();
  s.run();
}
template <class S, class V, class F> void gaPlain() {
  S s;
  s.setiFun(&gi<V>); s.setfFun(&gf<V, F>); s.setcFun(&gc<V>); s.setmFun(&gm<V>);
  gaRun(s);
}
template <class S, class V, class F> void gaArgs() {
  S s;
  s.setiFun(&ai<V>); s.setfFun(&af<V, F>); s.setcFun(&ac<V>); s.setmFun(&am<V>);
  gaRun(s);
}
void ga() {
  gaPlain<SOGA<A3, FITNESS_LESS_BETTER, RECORD_FITNESS, Truncation>, A3, double>();
  gaPlain<SOGA<A3, FITNESS_GREATER_BETTER, DONT_RECORD_FITNESS, Tournament>, A3, double>();
  gaArgs<SOGA<A3, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, RouletteWheel, Arg>, A3, double>();
  SOGA<A3, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, Truncation, void, &gi<A3>, &gf<A3, double>, &gc<A3>, &gm<A3>> st;
  gaRun(st);
  gaPlain<NSGA2<A3, 2, FITNESS_LESS_BETTER>, A3, Eigen::Array<double, 2, 1>>();
  gaPlain<NSGA2<A3, 3, FITNESS_GREATER_BETTER, RECORD_FITNESS>, A3, Eigen::Array<double, 3, 1>>();
  gaArgs<NSGA2<A3, 2, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, Arg>, A3, Eigen::Array<double, 2, 1>>();
  gaPlain<NSGA3<A3, 3, DONT_RECORD_FITNESS, SINGLE_LAYER>, A3, Eigen::Array<double, 3, 1>>();
  gaPlain<NSGA3<A3, 4, DONT_RECORD_FITNESS, DOUBLE_LAYER>, A3, Eigen::Array<double, 4, 1>>();
}

template <class V> void pf(const V*, double* f) { *f = 0; }
template <class V> void pfa(const V*, const Arg*, double* f) { *f = 0; }
template <class S> void swarmRun(S& s) {
  s.initializePop();
  s.run();
}
template <class S, class V> void psoPlain() {
  S s;
  s.setfFun(&pf<V>);
  swarmRun(s);
}
void pso() {
  psoPlain<PSO<A3, BoxShape::SQUARE_BOX, FITNESS_LESS_BETTER, RECORD_FITNESS>, A3>();
  psoPlain<PSO<VD, BoxShape::RECTANGLE_BOX, FITNESS_GREATER_BETTER>, VD>();
  psoPlain<PSO<E3, BoxShape::RECTANGLE_BOX>, E3>();
  psoPlain<PSO<EX, BoxShape::SQUARE_BOX, FITNESS_GREATER_BETTER, RECORD_FITNESS>, EX>();
  PSO<A3, BoxShape::RECTANGLE_BOX, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, Arg> a;
  a.setfFun(&pfa<A3>);
  swarmRun(a);
  PSO<E3, BoxShape::SQUARE_BOX, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, void, &pf<E3>> c;
  swarmRun(c);
}
template <class S, class V> void aosPlain() {
  S s;
  s.setfFun(&pf<V>);
  swarmRun(s);
}
void aos() {
  aosPlain<AOS_square<A3>, A3>();
  aosPlain<AOS_rect<VD, FITNESS_GREATER_BETTER, RECORD_FITNESS>, VD>();
  aosPlain<AOS_rect<E3>, E3>();
  aosPlain<AOS_square<EX, FITNESS_GREATER_BETTER, RECORD_FITNESS>, EX>();
  aosPlain<AOS_inf<EX>, EX>();
  AOS_square<A3, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, Arg> a;
  a.setfFun(&pfa<A3>);
  swarmRun(a);
  AOS_rect<E3, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, void, &pf<E3>> c;
  swarmRun(c);
}
