// Public API of the box constraints, for every family, shape and variable type.
#include <HeuristicFlow/EAGlobal>
#include <array>
#include <type_traits>
#include <vector>
using namespace heu;
template <class A, class B> constexpr bool same = std::is_same<A, B>::value;
template <class T> const T& cst(const T& t) { return t; }
template <class T> struct Kind {  // 0 vector of fixed size, 1 of dynamic size, 2 fixed matrix, 3 dynamic matrix
  static constexpr int value = T::RowsAtCompileTime == 1 || T::ColsAtCompileTime == 1 ? (T::SizeAtCompileTime == Eigen::Dynamic ? 1 : 0)
                                                                                     : (T::SizeAtCompileTime == Eigen::Dynamic ? 3 : 2);
};
template <class T, std::size_t N> struct Kind<std::array<T, N>> { static constexpr int value = 0; };
template <class T> struct Kind<std::vector<T>> { static constexpr int value = 1; };

template <class B, class V> void common(B& b, V& v) {
  static_assert(same<typename B::Var_t, V>, "Var_t");
  constexpr int k = Kind<V>::value;
  if constexpr (k == 1) b.setDimensions(3);
  if constexpr (k == 3) b.setDimensions(2, 3);
  using S = typename B::Scalar_t;
  S lo = cst(b).min(0), hi = cst(b).max(0);
  (void)lo; (void)hi;
  int d = cst(b).dimensions();
  (void)d;
  cst(b).initializeSize(&v);
  cst(b).initialize(&v);
  cst(b).applyConstraint(&v);
  cst(b).applyConstraint(&v, 0);
  cst(b).applyDelta(&v);
  if constexpr (k >= 2) { int r = cst(b).boxRows(), c = cst(b).boxCols(); (void)r; (void)c; }
}
template <class V, class S> void range(DiscretBox<V, BoxShape::SQUARE_BOX>& b, S lo, S hi) {
  b.setRange(lo, hi);
  S& l = b.min(); S& h = b.max();
  l = lo; h = hi;
  S a = cst(b).min(), c = cst(b).max();
  (void)a; (void)c;
}
template <class V> void range(DiscretBox<V, BoxShape::RECTANGLE_BOX>& b, const V& lo, const V& hi) {
  b.setRange(lo, hi);
  V& l = b.min(); V& h = b.max();
  l = lo; h = hi;
  static_assert(same<decltype(cst(b).min()), const V&> && same<decltype(cst(b).max()), const V&>, "bounds");
  (void)cst(b).min(); (void)cst(b).max();
}
template <class V> void discrete(V& v, const V& lo, const V& hi) {
  using S = typename array_traits<V>::Scalar_t;
  DiscretBox<V, BoxShape::SQUARE_BOX> q;
  common(q, v);
  range<V, S>(q, S(0), S(1));
  DiscretBox<V, BoxShape::RECTANGLE_BOX> r;
  common(r, v);
  range<V>(r, lo, hi);
}
template <class V> void boolean(V& v) {
  DiscretBox<V, BoxShape::SQUARE_BOX> q;
  common(q, v);
}
template <class V> void continuous(V& v, const V& lo, const V& hi, const V& dl) {
  using S = typename array_traits<V>::Scalar_t;
  ContinousBox<V, BoxShape::SQUARE_BOX> q;
  common(q, v);
  range<V, S>(q, S(0), S(1));
  q.setDelta(S(0.1));
  S x = cst(q).delta(), y = cst(q).delta(0);
  q.delta() = x + y;
  ContinousBox<V, BoxShape::RECTANGLE_BOX> r;
  common(r, v);
  range<V>(r, lo, hi);
  r.setDelta(dl);
  static_assert(same<decltype(cst(r).delta()), const V&>, "delta");
  r.delta() = dl;
  S z = cst(r).delta(0);
  if constexpr (Kind<V>::value >= 2) { S w = cst(r).delta(0, 0) + cst(q).delta(0, 0); (void)w; }
  (void)z; (void)cst(r).delta();
  GaussianBox<V> g;
  common(g, v);
  g.setMu(S(0)); g.setSigma(S(1)); g.setDelta(S(0.1));
  S m = cst(g).mu() + cst(g).sigma() + cst(g).variance() + cst(g).delta() + cst(g).min() + cst(g).max();
  g.mu() = m; g.sigma() = m; g.delta() = m;
}
template <class V> void fixedInt(V& v) {
  FixedDiscreteBox<V, 0, 7> b;
  common(b, v);
}
template <class V> void fixedReal(V& v) {
  using S = typename array_traits<V>::Scalar_t;
  FixedDiscreteBox17<V, encode(S(0)), encode(S(1))> b;
  common(b, v);
  FixedContinousBox17<V, encode(S(0)), encode(S(1)), encode(S(0.5))> c;
  common(c, v);
  S d = cst(c).delta(0);
  (void)d;
#if __cplusplus >= 202002L
  FixedDiscreteBox<V, S(0), S(1)> e;
  common(e, v);
  FixedContinousBox20<V, S(0), S(1), S(0.5)> f;
  common(f, v);
  S g = cst(f).delta(0);
  (void)g;
#endif
}
template <class T> struct Vars {
  using A = std::array<T, 3>;
  using L = std::vector<T>;
  using E = Eigen::Array<T, 3, 1>;
  using X = Eigen::Array<T, Eigen::Dynamic, 1>;
  using R = Eigen::Array<T, 1, Eigen::Dynamic>;
  using F = Eigen::Array<T, 2, 3>;
  using D = Eigen::Array<T, Eigen::Dynamic, Eigen::Dynamic>;
};
template <class V> void real(V& v) { discrete(v, v, v); continuous(v, v, v, v); fixedReal(v); }
template <class V> void integer(V& v) { discrete(v, v, v); fixedInt(v); }
template <class T> void reals(typename Vars<T>::A& a, typename Vars<T>::L& l, typename Vars<T>::E& e, typename Vars<T>::X& x,
                              typename Vars<T>::R& r, typename Vars<T>::F& f, typename Vars<T>::D& d) {
  real(a); real(l); real(e); real(x); real(r); real(f); real(d);
}
template <class T> void integers(typename Vars<T>::A& a, typename Vars<T>::L& l, typename Vars<T>::E& e, typename Vars<T>::X& x,
                                 typename Vars<T>::R& r, typename Vars<T>::F& f, typename Vars<T>::D& d) {
  integer(a); integer(l); integer(e); integer(x); integer(r); integer(f); integer(d);
}
template void reals<double>(Vars<double>::A&, Vars<double>::L&, Vars<double>::E&, Vars<double>::X&, Vars<double>::R&, Vars<double>::F&, Vars<double>::D&);
template void reals<float>(Vars<float>::A&, Vars<float>::L&, Vars<float>::E&, Vars<float>::X&, Vars<float>::R&, Vars<float>::F&, Vars<float>::D&);
template void integers<int>(Vars<int>::A&, Vars<int>::L&, Vars<int>::E&, Vars<int>::X&, Vars<int>::R&, Vars<int>::F&, Vars<int>::D&);
template void integers<unsigned>(Vars<unsigned>::A&, Vars<unsigned>::L&, Vars<unsigned>::E&, Vars<unsigned>::X&, Vars<unsigned>::R&, Vars<unsigned>::F&, Vars<unsigned>::D&);
void booleans(Vars<bool>::A& a, Vars<bool>::E& e, Vars<bool>::X& x, Vars<bool>::F& f, Vars<bool>::D& d) {
  boolean(a); boolean(e); boolean(x); boolean(f); boolean(d);
}
