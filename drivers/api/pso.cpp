// Public API of the particle swarm solver, for every documented variable type and option.
#include <HeuristicFlow/PSO>
#include <array>
#include <type_traits>
#include <vector>
using namespace heu;
template <class A, class B> constexpr bool same = std::is_same<A, B>::value;
template <class T> const T& cst(const T& t) { return t; }
struct Arg { double k = 0; };
template <class V> struct Plain {
  using Args = void;
  static void i(V*, V*) {}
  static void f(const V*, double* r) { *r = 0; }
};
template <class V> struct WithArg {
  using Args = Arg;
  static void i(V*, V*, const Arg*) {}
  static void f(const V*, const Arg*, double* r) { *r = 0; }
};
template <class V> struct Kind {  // 0 vector of fixed size, 1 of dynamic size, 2 fixed matrix, 3 dynamic matrix
  static constexpr int value = V::RowsAtCompileTime == 1 || V::ColsAtCompileTime == 1 ? (V::SizeAtCompileTime == Eigen::Dynamic ? 1 : 0)
                                                                                     : (V::SizeAtCompileTime == Eigen::Dynamic ? 3 : 2);
};
template <class T, std::size_t N> struct Kind<std::array<T, N>> { static constexpr int value = 0; };
template <class T> struct Kind<std::vector<T>> { static constexpr int value = 1; };

template <bool CT, bool CI, bool REC, BoxShape BS, class Fn, class S, class V> void use(const V& a, const V& b, const V& c) {
  S s;
  constexpr int kind = Kind<V>::value;
  if constexpr (kind == 1) s.setDimensions(3);
  if constexpr (kind == 3) s.setDimensions(2, 3);
  if constexpr (BS == BoxShape::SQUARE_BOX) {
    s.setPVRange(-1., 1., 0.1);
    s.setRange(-1., 1.);
    s.setMaxVelocity(0.1);
  } else {
    s.setPVRange(a, b, c);
    s.setRange(a, b);
    s.setMaxVelocity(c);
  }
  if constexpr (!CT) s.setfFun(&Fn::f);
  typename S::fFun_t f = s.fFun();
  if constexpr (CI) s.setiFun(&Fn::i);
  typename S::iFun_t ifn = s.iFun();
  static_assert(same<typename S::iFun_t, decltype(&Fn::i)>, "iFun_t");
  (void)ifn;
  static_assert(same<typename S::fFun_t, decltype(&Fn::f)>, "fFun_t");
  (void)f;
  if constexpr (!std::is_void<typename Fn::Args>::value) {
    s.setArgs(Arg());
    static_assert(same<decltype(cst(s).args()), const Arg&>, "args");
    (void)cst(s).args();
  }
  static_assert(S::HasParameters == !std::is_void<typename Fn::Args>::value, "HasParameters");
  PSOOption o;
  o.populationSize = 10; o.maxGeneration = 5; o.maxFailTimes = 5; o.inertiaFactor = 0.8; o.learnFactorP = 2; o.learnFactorG = 2;
  s.setOption(o);
  s.initializePop();
  s.run();
  double best = cst(s).bestFitness();
  (void)best;
  static_assert(same<decltype(cst(s).option()), const PSOOption&>, "option");
  (void)cst(s).option();
  std::size_t g = cst(s).generation(), t = cst(s).failTimes();
  (void)g; (void)t;
  (void)cst(s).posMin(); (void)cst(s).posMax(); (void)cst(s).maxVelocity();
  int d = cst(s).dimensions();
  (void)d;
  static_assert(same<decltype(cst(s).population()), const std::vector<typename S::Particle_t>&>, "population");
  static_assert(same<decltype(cst(s).globalBest()), const typename S::Point_t&>, "globalBest");
  const V& x = cst(s).globalBest().position;
  (void)x; (void)cst(s).population();
  if constexpr (REC) { const std::vector<double>& r = cst(s).record(); (void)r; }
  if constexpr (kind >= 2) { int r = cst(s).boxRows(), q = cst(s).boxCols(); (void)r; (void)q; }
}
template <class V, BoxShape BS, FitnessOption FO, RecordOption RO> void all(const V& a, const V& b, const V& c) {
  use<false, false, RO == RECORD_FITNESS, BS, Plain<V>, PSO<V, BS, FO, RO>, V>(a, b, c);
  use<false, false, RO == RECORD_FITNESS, BS, WithArg<V>, PSO<V, BS, FO, RO, Arg>, V>(a, b, c);
  use<true, false, RO == RECORD_FITNESS, BS, Plain<V>, PSO<V, BS, FO, RO, void, &Plain<V>::f>, V>(a, b, c);
  use<true, false, RO == RECORD_FITNESS, BS, WithArg<V>, PSO<V, BS, FO, RO, Arg, &WithArg<V>::f>, V>(a, b, c);
  use<false, true, RO == RECORD_FITNESS, BS, Plain<V>, PSO<V, BS, FO, RO, void, nullptr, nullptr>, V>(a, b, c);
  use<true, true, RO == RECORD_FITNESS, BS, WithArg<V>, PSO<V, BS, FO, RO, Arg, &WithArg<V>::f, nullptr>, V>(a, b, c);
  use<true, false, RO == RECORD_FITNESS, BS, Plain<V>, PSO<V, BS, FO, RO, void, &Plain<V>::f, &Plain<V>::i>, V>(a, b, c);
}
template <class V> void shapes(const V& a, const V& b, const V& c) {
  all<V, BoxShape::SQUARE_BOX, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS>(a, b, c);
  all<V, BoxShape::SQUARE_BOX, FITNESS_GREATER_BETTER, RECORD_FITNESS>(a, b, c);
  all<V, BoxShape::RECTANGLE_BOX, FITNESS_LESS_BETTER, RECORD_FITNESS>(a, b, c);
  all<V, BoxShape::RECTANGLE_BOX, FITNESS_GREATER_BETTER, DONT_RECORD_FITNESS>(a, b, c);
}
void everything(const std::array<double, 3>& a, const std::vector<double>& v, const Eigen::Array3d& e, const Eigen::ArrayXd& x,
                const Eigen::Matrix<double, 4, 1>& m, const Eigen::Array<double, 2, 3>& f, const Eigen::ArrayXXd& d,
                const Eigen::Array<double, 1, Eigen::Dynamic>& r) {
  shapes(a, a, a);
  shapes(v, v, v);
  shapes(e, e, e);
  shapes(x, x, x);
  shapes(f, f, f);
  shapes(d, d, d);
  shapes(r, r, r);
  shapes(m, m, m);
}
