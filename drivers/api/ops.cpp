// Default genetic operators and test functions, for every variable type they are documented for.
#include <HeuristicFlow/Genetic>
#include <array>
#include <vector>
using namespace heu;
template <class V, bool FIXED> void plain(const V& a, const V& b, V& c, V& d) {
  using G = GADefaults<V>;
  using S = typename array_traits<V>::Scalar_t;
  if constexpr (std::is_floating_point<S>::value) {
    G::template iFunNd<>(&c);
    G::template iFunNd<DivEncode<-1, 2>::code, DivEncode<3, 2>::code>(&c);
    G::template iFunNf<>(&c);
    if constexpr (FIXED) { G::template cFunNd<>(&a, &b, &c, &d); G::template cFunNd<DivEncode<1, 10>::code>(&a, &b, &c, &d); }
    else { G::template cFunXd<>(&a, &b, &c, &d); G::template cFunXd<DivCode::DivCode_Half>(&a, &b, &c, &d); }
  }
  if constexpr (FIXED) { G::cFunSwapNs(&a, &b, &c, &d); G::template cFunRandNs<>(&a, &b, &c, &d); G::template cFunRandNs<DivEncode<1, 4>::code>(&a, &b, &c, &d); }
  else { G::cFunSwapXs(&a, &b, &c, &d); G::template cFunRandXs<>(&a, &b, &c, &d); G::template cFunRandXs<DivEncode<1, 4>::code>(&a, &b, &c, &d); }
}
template <class V, bool FIXED, class B> void boxed(const V& a, const V& b, V& c, V& d, const B& box) {
  using G = GADefaults<V, B>;
  using S = typename array_traits<V>::Scalar_t;
  G::template iFun<>(&c, &box);
  G::template mFun<>(&a, &c, &box);
  if constexpr (std::is_floating_point<S>::value) {
    if constexpr (FIXED) { G::template cFunNd<>(&a, &b, &c, &d, &box); G::template cFunNd<DivEncode<1, 10>::code>(&a, &b, &c, &d, &box); }
    else { G::template cFunXd<>(&a, &b, &c, &d, &box); G::template cFunXd<DivCode::DivCode_Half>(&a, &b, &c, &d, &box); }
  } else if constexpr (std::is_integral<S>::value && !std::is_same<S, bool>::value) G::template mFun_s<>(&a, &c, &box);
  if constexpr (FIXED) { G::cFunSwapNs(&a, &b, &c, &d, &box); G::template cFunRandNs<>(&a, &b, &c, &d, &box); }
  else { G::cFunSwapXs(&a, &b, &c, &d, &box); G::template cFunRandXs<>(&a, &b, &c, &d, &box); }
}
template <class V, bool FIXED> void real(const V& a, V& c, const ContinousBox<V, BoxShape::SQUARE_BOX>& q, const ContinousBox<V, BoxShape::RECTANGLE_BOX>& r) {
  plain<V, FIXED>(a, a, c, c);
  boxed<V, FIXED>(a, a, c, c, q);
  boxed<V, FIXED>(a, a, c, c, r);
}
template <class V, bool FIXED> void symbolic(const V& a, V& c, const DiscretBox<V, BoxShape::SQUARE_BOX>& q, const DiscretBox<V, BoxShape::RECTANGLE_BOX>& r) {
  plain<V, FIXED>(a, a, c, c);
  boxed<V, FIXED>(a, a, c, c, q);
  boxed<V, FIXED>(a, a, c, c, r);
}
template <class V, bool FIXED> void boolean(const V& a, V& c, const DiscretBox<V, BoxShape::SQUARE_BOX>& q) {
  plain<V, FIXED>(a, a, c, c);
  boxed<V, FIXED>(a, a, c, c, q);
}
template void real<std::array<double, 3>, true>(const std::array<double, 3>&, std::array<double, 3>&, const ContinousBox<std::array<double, 3>, BoxShape::SQUARE_BOX>&, const ContinousBox<std::array<double, 3>, BoxShape::RECTANGLE_BOX>&);
template void real<std::vector<double>, false>(const std::vector<double>&, std::vector<double>&, const ContinousBox<std::vector<double>, BoxShape::SQUARE_BOX>&, const ContinousBox<std::vector<double>, BoxShape::RECTANGLE_BOX>&);
template void real<Eigen::Array3d, true>(const Eigen::Array3d&, Eigen::Array3d&, const ContinousBox<Eigen::Array3d, BoxShape::SQUARE_BOX>&, const ContinousBox<Eigen::Array3d, BoxShape::RECTANGLE_BOX>&);
template void real<Eigen::ArrayXd, false>(const Eigen::ArrayXd&, Eigen::ArrayXd&, const ContinousBox<Eigen::ArrayXd, BoxShape::SQUARE_BOX>&, const ContinousBox<Eigen::ArrayXd, BoxShape::RECTANGLE_BOX>&);
template void real<Eigen::ArrayXf, false>(const Eigen::ArrayXf&, Eigen::ArrayXf&, const ContinousBox<Eigen::ArrayXf, BoxShape::SQUARE_BOX>&, const ContinousBox<Eigen::ArrayXf, BoxShape::RECTANGLE_BOX>&);
template void symbolic<std::array<int, 3>, true>(const std::array<int, 3>&, std::array<int, 3>&, const DiscretBox<std::array<int, 3>, BoxShape::SQUARE_BOX>&, const DiscretBox<std::array<int, 3>, BoxShape::RECTANGLE_BOX>&);
template void symbolic<std::vector<int>, false>(const std::vector<int>&, std::vector<int>&, const DiscretBox<std::vector<int>, BoxShape::SQUARE_BOX>&, const DiscretBox<std::vector<int>, BoxShape::RECTANGLE_BOX>&);
template void symbolic<Eigen::Array3i, true>(const Eigen::Array3i&, Eigen::Array3i&, const DiscretBox<Eigen::Array3i, BoxShape::SQUARE_BOX>&, const DiscretBox<Eigen::Array3i, BoxShape::RECTANGLE_BOX>&);
template void symbolic<Eigen::ArrayXi, false>(const Eigen::ArrayXi&, Eigen::ArrayXi&, const DiscretBox<Eigen::ArrayXi, BoxShape::SQUARE_BOX>&, const DiscretBox<Eigen::ArrayXi, BoxShape::RECTANGLE_BOX>&);
template void boolean<std::array<bool, 3>, true>(const std::array<bool, 3>&, std::array<bool, 3>&, const DiscretBox<std::array<bool, 3>, BoxShape::SQUARE_BOX>&);
using AXb = Eigen::Array<bool, Eigen::Dynamic, 1>;
template void boolean<AXb, false>(const AXb&, AXb&, const DiscretBox<AXb, BoxShape::SQUARE_BOX>&);

// the test functions
template <class V, class... A> void two(const V* x, double* f, const A*... a) {
  using T = testFunctions<V, double, std::conditional_t<sizeof...(A) == 0, void, int>>;
  T::ackley(x, a..., f); T::beale(x, a..., f); T::GoldsteinPrice(x, a..., f); T::booth(x, a..., f); T::bukin(x, a..., f);
  T::matyas(x, a..., f); T::levy(x, a..., f); T::himmelblau(x, a..., f); T::easom(x, a..., f); T::crossInTray(x, a..., f);
  T::eggHolder(x, a..., f); T::holderTable(x, a..., f); T::McCormick(x, a..., f); T::schaffer2(x, a..., f); T::schaffer4(x, a..., f);
}
template <class V, class... A> void many(const V* x, double* f, const A*... a) {
  using T = testFunctions<V, double, std::conditional_t<sizeof...(A) == 0, void, int>>;
  T::rastrigin(x, a..., f); T::sphere(x, a..., f); T::rosenbrock(x, a..., f); T::styblinskiTang(x, a..., f);
}
template void two(const std::array<double, 2>*, double*);
template void two(const Eigen::Array2d*, double*);
template void two(const std::array<double, 2>*, double*, const int*);
template void two(const Eigen::Array2d*, double*, const int*);
template void many(const Eigen::Array<double, 5, 1>*, double*);
template void many(const Eigen::Array<double, 5, 1>*, double*, const int*);
template void many(const std::array<double, 5>*, double*);
template void many(const std::vector<double>*, double*);
template void many(const Eigen::ArrayXd*, double*);
