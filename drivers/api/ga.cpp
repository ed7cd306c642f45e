// Public API of the genetic solvers, in every combination of the documented template options.
#include <HeuristicFlow/Genetic>
#include <array>
#include <list>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
using namespace heu;
template <class A, class B> constexpr bool same = std::is_same<A, B>::value;
template <class T> const T& cst(const T& t) { return t; }
struct Arg { double k = 0; };
using V = std::array<double, 3>;

template <class Va, class F> struct Plain {
  using Args = void;
  static void i(Va* v) { *v = Va(); }
  static void f(const Va*, F* f) { *f = F(); }
  static void c(const Va* a, const Va* b, Va* x, Va* y) { *x = *a; *y = *b; }
  static void m(const Va* a, Va* b) { *b = *a; }
};
template <class Va, class F> struct WithArg {
  using Args = Arg;
  static void i(Va* v, const Arg*) { *v = Va(); }
  static void f(const Va*, const Arg*, F* f) { *f = F(); }
  static void c(const Va* a, const Va* b, Va* x, Va* y, const Arg*) { *x = *a; *y = *b; }
  static void m(const Va* a, Va* b, const Arg*) { *b = *a; }
};

// what every genetic solver offers
template <bool CT, bool REC, class Fn, class S, class Va, class F> void common() {
  S s;
  static_assert(same<typename S::initializeFun, decltype(&Fn::i)> && same<typename S::fitnessFun, decltype(&Fn::f)> &&
                same<typename S::crossoverFun, decltype(&Fn::c)> && same<typename S::mutateFun, decltype(&Fn::m)>, "function types");
  if constexpr (!CT) { s.setiFun(&Fn::i); s.setfFun(&Fn::f); s.setcFun(&Fn::c); s.setmFun(&Fn::m); }
  else static_assert(noexcept(s.iFun()) || true, "");
  typename S::initializeFun fi = s.iFun(); typename S::fitnessFun ff = s.fFun();
  typename S::crossoverFun fc = s.cFun(); typename S::mutateFun fm = s.mFun();
  (void)fi; (void)ff; (void)fc; (void)fm;
  if constexpr (!std::is_void<typename Fn::Args>::value) {
    s.setArgs(Arg());
    static_assert(same<decltype(cst(s).args()), const Arg&>, "args");
  }
  GAOption o;
  o.populationSize = 100; o.maxFailTimes = 5; o.maxGenerations = 10; o.crossoverProb = 0.5; o.mutateProb = 0.1;
  s.setOption(o);
  s.initializePop();
  s.run();
  static_assert(same<decltype(cst(s).option()), const GAOption&>, "option");
  static_assert(same<decltype(cst(s).generation()), std::size_t> && same<decltype(cst(s).failTimes()), std::size_t>, "counters");
  static_assert(same<decltype(cst(s).population()), const std::list<typename S::Gene_t>&>, "population");
  (void)cst(s).option(); (void)cst(s).generation(); (void)cst(s).failTimes(); (void)cst(s).population();
  F best = cst(s).bestFitness();
  (void)best;
  if constexpr (REC) { const std::vector<F>& r = cst(s).record(); (void)r; }
}
template <bool CT, bool REC, class Fn, class S> void soga() {
  common<CT, REC, Fn, S, V, double>();
  S s;
  static_assert(same<decltype(cst(s).result()), const V&>, "result");
  const V& r = cst(s).result();
  (void)r;
  SelectMethod m = cst(s).selectMethod();
  (void)m;
}
template <SelectMethod M, FitnessOption FO, RecordOption RO> void sogas() {
  using P = Plain<V, double>;
  using A = WithArg<V, double>;
  soga<false, RO == RECORD_FITNESS, P, SOGA<V, FO, RO, M>>();
  soga<false, RO == RECORD_FITNESS, A, SOGA<V, FO, RO, M, Arg>>();
  soga<true, RO == RECORD_FITNESS, P, SOGA<V, FO, RO, M, void, &P::i, &P::f, &P::c, &P::m>>();
  soga<true, RO == RECORD_FITNESS, A, SOGA<V, FO, RO, M, Arg, &A::i, &A::f, &A::c, &A::m>>();
}
template <SelectMethod M> void sogam() {
  sogas<M, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS>();
  sogas<M, FITNESS_GREATER_BETTER, RECORD_FITNESS>();
  sogas<M, FITNESS_LESS_BETTER, RECORD_FITNESS>();
  sogas<M, FITNESS_GREATER_BETTER, DONT_RECORD_FITNESS>();
}
void allSoga() {
  sogam<RouletteWheel>(); sogam<Tournament>(); sogam<Truncation>(); sogam<MonteCarlo>(); sogam<Probability>();
  sogam<LinearRank>(); sogam<ExponentialRank>(); sogam<Boltzmann>(); sogam<StochasticUniversal>(); sogam<EliteReserved>();
  sogam<RunTimeSelectMethod>();
  SOGA<V, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, RunTimeSelectMethod> r;
  r.setSelectMethod(Tournament);
  SOGA<V, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, Tournament> t;
  t.setTournamentSize(3);
  static_assert(std::is_integral<decltype(cst(t).tournamentSize())>::value, "tournament size");
  (void)t.tournamentSize();
  SOGA<V, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, Boltzmann> b;
  b.setBoltzmannSelectStrength(-10);
  (void)b.boltzmannSelectStrength();
  SOGA<V, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, ExponentialRank> e;
  e.setExponetialSelectBase(0.5);
  (void)e.exponetialSelectBase();
  SOGA<V, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, EliteReserved> k;
  k.setEliteNum(2);
  (void)k.eliteNum();
}

template <bool CT, bool REC, class Fn, class S, class F> void moga(int objectives) {
  common<CT, REC, Fn, S, V, F>();
  S s;
  if constexpr (F::SizeAtCompileTime == Eigen::Dynamic) s.setObjectiveNum(objectives);
  static_assert(std::is_integral<decltype(cst(s).objectiveNum())>::value, "objectiveNum");
  (void)cst(s).objectiveNum();
  std::vector<F> front;
  cst(s).paretoFront(front);
  std::vector<std::pair<const V*, const F*>> pairs;
  cst(s).paretoFront(pairs);
  static_assert(same<decltype(cst(s).pfGenes()), const std::unordered_set<const typename S::Gene_t*>&>, "pfGenes");
  (void)cst(s).pfGenes();
}
template <int N> using Obj = Eigen::Array<double, N, 1>;
template <int N, FitnessOption FO, RecordOption RO> void nsga2s() {
  using P = Plain<V, Obj<N>>;
  using A = WithArg<V, Obj<N>>;
  moga<false, RO == RECORD_FITNESS, P, NSGA2<V, N, FO, RO>, Obj<N>>(3);
  moga<false, RO == RECORD_FITNESS, A, NSGA2<V, N, FO, RO, Arg>, Obj<N>>(3);
  moga<true, RO == RECORD_FITNESS, P, NSGA2<V, N, FO, RO, void, &P::i, &P::f, &P::c, &P::m>, Obj<N>>(3);
  moga<true, RO == RECORD_FITNESS, A, NSGA2<V, N, FO, RO, Arg, &A::i, &A::f, &A::c, &A::m>, Obj<N>>(3);
}
template <int N, RecordOption RO, ReferencePointOption RP> void nsga3s() {
  using P = Plain<V, Obj<N>>;
  using A = WithArg<V, Obj<N>>;
  moga<false, RO == RECORD_FITNESS, P, NSGA3<V, N, RO, RP>, Obj<N>>(3);
  moga<false, RO == RECORD_FITNESS, A, NSGA3<V, N, RO, RP, Arg>, Obj<N>>(3);
  moga<true, RO == RECORD_FITNESS, P, NSGA3<V, N, RO, RP, void, &P::i, &P::f, &P::c, &P::m>, Obj<N>>(3);
  moga<true, RO == RECORD_FITNESS, A, NSGA3<V, N, RO, RP, Arg, &A::i, &A::f, &A::c, &A::m>, Obj<N>>(3);
  NSGA3<V, N, RO, RP> s;
  if constexpr (RP == SINGLE_LAYER) {
    s.setReferencePointPrecision(4);
    std::size_t p = cst(s).referencePointPrecision();
    (void)p;
  } else {
    s.setReferencePointPrecision(2, 3);
    std::size_t p = cst(s).innerPrecision(), q = cst(s).outerPrecision();
    (void)p; (void)q;
  }
  std::size_t n = cst(s).referencePointCount();
  (void)n;
  (void)cst(s).referencePoints();
}
template <int N> void mogas() {
  nsga2s<N, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS>();
  nsga2s<N, FITNESS_GREATER_BETTER, RECORD_FITNESS>();
  nsga2s<N, FITNESS_LESS_BETTER, RECORD_FITNESS>();
  nsga2s<N, FITNESS_GREATER_BETTER, DONT_RECORD_FITNESS>();
  nsga3s<N, DONT_RECORD_FITNESS, SINGLE_LAYER>();
  nsga3s<N, RECORD_FITNESS, SINGLE_LAYER>();
  nsga3s<N, DONT_RECORD_FITNESS, DOUBLE_LAYER>();
  nsga3s<N, RECORD_FITNESS, DOUBLE_LAYER>();
}
void allMoga() { mogas<2>(); mogas<3>(); mogas<5>(); mogas<Eigen::Dynamic>(); }
