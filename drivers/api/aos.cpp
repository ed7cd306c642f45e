// Public API of the atomic orbital search solver, for every box shape, variable type and option.
#include <HeuristicFlow/AOS>
#include <array>
#include <list>
#include <type_traits>
#include <vector>
using namespace heu;
template <class A, class B> constexpr bool same = std::is_same<A, B>::value;
template <class T> const T& cst(const T& t) { return t; }
struct Arg { double k = 0; };
template <class V> struct Plain {
  using Args = void;
  static void i(V*) {}
  static void f(const V*, double* r) { *r = 0; }
};
template <class V> struct WithArg {
  using Args = Arg;
  static void i(V*, const Arg*) {}
  static void f(const V*, const Arg*, double* r) { *r = 0; }
};
template <class T> constexpr int kind() {  // 0 vector of fixed size, 1 of dynamic size, 2 fixed matrix, 3 dynamic matrix
  if constexpr (isEigenClass<T>::value)
    return T::RowsAtCompileTime == 1 || T::ColsAtCompileTime == 1 ? (T::SizeAtCompileTime == Eigen::Dynamic ? 1 : 0)
                                                                  : (T::SizeAtCompileTime == Eigen::Dynamic ? 3 : 2);
  else
    return same<T, std::vector<double>> ? 1 : 0;
}
enum Shape { SQ, RECT, INF, FIX };
template <bool CT, bool CI, bool REC, Shape SH, class Fn, class S, class V> void use(const V& a, const V& b, const V& c) {
  S s;
  constexpr int k = kind<V>();
  if constexpr (k == 1) s.setDimensions(3);
  if constexpr (k == 3) s.setDimensions(2, 3);
  if constexpr (SH == SQ) { s.setRange(-1., 1.); s.setDelta(0.1); }
  else if constexpr (SH == RECT) { s.setRange(a, b); s.setDelta(c); }
  else if constexpr (SH == INF) { s.setMu(0.); s.setSigma(1.); s.setDelta(0.1); }
  static_assert(same<typename S::iFun_t, decltype(&Fn::i)> && same<typename S::fFun_t, decltype(&Fn::f)>, "function types");
  if constexpr (!CT) s.setfFun(&Fn::f);
  if constexpr (CI) s.setiFun(&Fn::i);
  typename S::fFun_t f = s.fFun();
  typename S::iFun_t ifn = s.iFun();
  (void)f; (void)ifn;
  if constexpr (!std::is_void<typename Fn::Args>::value) {
    s.setArg(Arg());
    static_assert(same<decltype(cst(s).arg()), const Arg&>, "arg");
    (void)cst(s).arg();
  }
  AOSOption o;
  o.electronNum = 50; o.maxGeneration = 30; o.maxEarlyStop = 20; o.photonRate = 0.1; o.maxLayerNum = 5;
  s.setOption(o);
  s.initializePop();
  s.run();
  static_assert(same<decltype(cst(s).option()), const AOSOption&>, "option");
  (void)cst(s).option(); (void)s.option();
  const V& x = cst(s).bestElectron().state;
  double e = cst(s).bestElectron().energy;
  const V& bs = cst(s).bindingState();
  double be = cst(s).bindingEnergy();
  static_assert(same<decltype(cst(s).electrons()), const std::list<typename S::Electron_t>&>, "electrons");
  for (const auto& l : cst(s).layers()) {
    const V& y = l.layerBestState();
    double le = l.layerBestEnergy();
    (void)y; (void)le; (void)l.bindingState; (void)l.bindingEnergy; (void)l.layerBestIdx; (void)l.size();
  }
  std::size_t g = cst(s).generation(), t = cst(s).earlyStopCounter();
  int d = cst(s).dimensions();
  (void)x; (void)e; (void)bs; (void)be; (void)g; (void)t; (void)d;
  if constexpr (REC) { const std::vector<double>& r = cst(s).record(); (void)r; }
}
#define ALL(SH, AL)                                                                                                        \
  template <class V, FitnessOption FO, RecordOption RO> void all##SH(const V& a, const V& b, const V& c) {                 \
    use<false, false, RO == RECORD_FITNESS, SH, Plain<V>, AL<V, FO, RO>, V>(a, b, c);                                      \
    use<false, false, RO == RECORD_FITNESS, SH, WithArg<V>, AL<V, FO, RO, Arg>, V>(a, b, c);                               \
    use<true, false, RO == RECORD_FITNESS, SH, Plain<V>, AL<V, FO, RO, void, &Plain<V>::f>, V>(a, b, c);                   \
    use<true, false, RO == RECORD_FITNESS, SH, WithArg<V>, AL<V, FO, RO, Arg, &WithArg<V>::f>, V>(a, b, c);                \
    use<false, true, RO == RECORD_FITNESS, SH, Plain<V>, AL<V, FO, RO, void, nullptr, nullptr>, V>(a, b, c);               \
    use<true, true, RO == RECORD_FITNESS, SH, WithArg<V>, AL<V, FO, RO, Arg, &WithArg<V>::f, nullptr>, V>(a, b, c);        \
    use<true, false, RO == RECORD_FITNESS, SH, Plain<V>, AL<V, FO, RO, void, &Plain<V>::f, &Plain<V>::i>, V>(a, b, c);     \
  }
ALL(SQ, AOS_square)
ALL(RECT, AOS_rect)
ALL(INF, AOS_inf)
template <class V, FitnessOption FO, RecordOption RO, class A = void, typename internal::AOSParameterPack<V, double, A>::fFun_t F = nullptr,
          typename internal::AOSParameterPack<V, double, A>::iFun_t I = internal::AOSParameterPack<V, double, A>::defaultInitializeFunctionThatShouldNotBeCalled>
using AOS_fixed = AOS<FixedContinousBox17<V, encode(-5.0), encode(5.0), encode(1.5)>, FO, RO, A, F, I>;
ALL(FIX, AOS_fixed)
template <class V> void shapes(const V& a, const V& b, const V& c) {
  allSQ<V, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS>(a, b, c);
  allSQ<V, FITNESS_GREATER_BETTER, RECORD_FITNESS>(a, b, c);
  allRECT<V, FITNESS_LESS_BETTER, RECORD_FITNESS>(a, b, c);
  allRECT<V, FITNESS_GREATER_BETTER, DONT_RECORD_FITNESS>(a, b, c);
  allFIX<V, FITNESS_GREATER_BETTER, DONT_RECORD_FITNESS>(a, b, c);
  allFIX<V, FITNESS_LESS_BETTER, RECORD_FITNESS>(a, b, c);
  allINF<V, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS>(a, b, c);
  allINF<V, FITNESS_GREATER_BETTER, RECORD_FITNESS>(a, b, c);
}
void everything(const std::array<double, 3>& a, const std::vector<double>& v, const Eigen::Array3d& e, const Eigen::ArrayXd& x,
                const Eigen::Array<double, 2, 3>& f, const Eigen::ArrayXXd& d,
                const Eigen::Array<double, 1, Eigen::Dynamic>& r) {
  shapes(a, a, a);
  shapes(v, v, v);
  shapes(e, e, e);
  shapes(x, x, x);
  shapes(f, f, f);
  shapes(d, d, d);
  shapes(r, r, r);
}
