// box constraints: initialisation, clamping, mutation step and accessors for arbitrary bounds; one arbitrary component
#include <array>
#include <vector>
#include "vp.h"
#include <HeuristicFlow/EAGlobal>
using namespace heu;
template <class V> auto comp(const V& v) { return at(v, VP_K()); }
template <class V> struct Sz { static constexpr int n = 0, r = 0, c = 0; };
template <class T, std::size_t N> struct Sz<std::array<T, N>> { static constexpr int n = N; };
template <class T, int R, int C> struct Sz<Eigen::Array<T, R, C>> { static constexpr int n = R > 0 && C > 0 ? R * C : 0, r = R, c = C; };
template <class V> inline constexpr bool mat = !array_traits<V>::isVector;
template <class T> T any() {
  if constexpr (std::is_same_v<T, bool>) return VP_any_bool();
  else if constexpr (std::is_floating_point_v<T>) return VP_any_double();
  else { T v = VP_any_int(); VP_assume(v >= -1000000 && v <= 1000000); return v; }
}
// KIND 0 discrete square, 1 discrete rectangle, 2 continuous square, 3 continuous rectangle, 4 boolean, 5 gaussian,
// 6 fixed discrete, 7 fixed continuous
template <class V, class B, int KIND> struct Bx : B {
  using T = typename array_traits<V>::Scalar_t;
  int dim, r, c;
  T lo, hi, dl;
  V a, b, d;
  void shape(V& v) {
    if constexpr (Sz<V>::n == 0) {
      if constexpr (mat<V>) v.resize(r, c); else v.resize(dim);
    }
    VP_havoc_elems(v);
  }
  void prep() {
    if constexpr (mat<V>) {
      r = Sz<V>::n ? Sz<V>::r : VP_any_int();
      c = Sz<V>::n ? Sz<V>::c : VP_any_int();
      VP_assume(r >= 1 && r <= 1000); VP_assume(c >= 1 && c <= 1000);
      dim = r * c;
    } else dim = Sz<V>::n ? Sz<V>::n : VP_any_int();
    VP_assume(dim >= 1 && dim <= 1000000);
    VP_dims(dim);
    lo = any<T>(); hi = any<T>(); dl = any<T>();
    if constexpr (KIND == 4) { lo = false; hi = true; }
    else if constexpr (KIND == 6 || KIND == 7) {
      lo = B::FIXLO; hi = B::FIXHI;
      if constexpr (KIND == 7) dl = B::FIXDL;
    }
    else { VP_assume(lo < hi); VP_assume(dl > 0); }
    if constexpr (KIND != 1 && KIND != 3 && Sz<V>::n == 0) {
      if constexpr (mat<V>) this->setDimensions(r, c); else this->setDimensions(dim);
    }
    if constexpr (KIND == 0 || KIND == 2) this->setRange(lo, hi);
    if constexpr (KIND == 1 || KIND == 3) {
      shape(a); shape(b);
      lo = comp(a); hi = comp(b);
      VP_assume(lo < hi);
      this->setRange(a, b);
    }
    if constexpr (KIND == 2 || KIND == 5) this->setDelta(dl);
    if constexpr (KIND == 5) {
      const double mu = VP_any_double(), sigma = VP_any_double();
      VP_assume(sigma > 0);
      this->setMu(mu); this->setSigma(sigma);
    }
    if constexpr (KIND == 3) {
      shape(d);
      dl = comp(d);
      VP_assume(dl > 0);
      this->setDelta(d);
    }
  }
  void access() {
    prep();
    VP_assert(this->dimensions() == dim, "dimensions");
    if constexpr (mat<V>) VP_assert(this->boxRows() == r && this->boxCols() == c, "dimensions");
    if constexpr (KIND != 5) VP_assert(this->min(VP_K()) == lo && this->max(VP_K()) == hi, "component_accessors");
    if constexpr (KIND == 0 || KIND == 2 || KIND == 6 || KIND == 7) VP_assert(static_cast<const B*>(this)->min() == lo && static_cast<const B*>(this)->max() == hi, "whole_accessors");
    if constexpr (KIND == 1 || KIND == 3) VP_assert(comp(this->min()) == lo && comp(this->max()) == hi, "whole_accessors");
    if constexpr (KIND == 2 || KIND == 3 || KIND == 5 || KIND == 7) VP_assert(this->delta(VP_K()) == dl, "component_accessors");
    VP_reach("after");
  }
  void dims() {
    if constexpr (Sz<V>::n == 0) {
      const int d0 = VP_any_int(), d1 = VP_any_int();
      VP_assume(d0 >= 1 && d0 <= 1000); VP_assume(d1 >= 1 && d1 <= 1000);
      if constexpr (mat<V>) {
        this->setDimensions(3, 4);
        VP_assert(this->dimensions() == 12 && this->boxRows() == 3 && this->boxCols() == 4, "dimensions");
        this->setDimensions(d0, d1);
        VP_assert(this->dimensions() == d0 * d1 && this->boxRows() == d0 && this->boxCols() == d1, "dimensions");
        if constexpr (KIND == 1 || KIND == 3) VP_assert(int(this->min().rows()) == d0 && int(this->max().cols()) == d1, "dimensions");
        if constexpr (KIND == 3) VP_assert(int(this->delta().rows()) == d0 && int(this->delta().cols()) == d1, "dimensions");
      } else {
        this->setDimensions(d0);
        VP_assert(this->dimensions() == d0, "dimensions");
        this->setDimensions(d1);
        VP_assert(this->dimensions() == d1, "dimensions");
        if constexpr (KIND == 1 || KIND == 3) VP_assert(int(this->min().size()) == d1 && int(this->max().size()) == d1, "dimensions");
        if constexpr (KIND == 3) VP_assert(int(this->delta().size()) == d1, "dimensions");
      }
    }
    VP_reach("after");
  }
  void in(const V& v) {
    VP_assert(int(v.size()) == dim, "size_of_variable");
    if constexpr (mat<V>) VP_assert(int(v.rows()) == r && int(v.cols()) == c, "size_of_variable");
    if constexpr (KIND != 5) VP_assert(lo <= comp(v) && comp(v) <= hi, "in_box");
  }
  void init() {
    prep();
    V v;
    this->initialize(&v);
    in(v);
    VP_reach("after");
  }
  // MODE 0: inside stays, 1: above, 2: below
  template <int MODE> void clamp(bool one) {
    prep();
    V v;
    shape(v);
    const T x = comp(v);
    if (MODE == 0) { VP_assume(lo <= x); VP_assume(x <= hi); }
    if (MODE == 1) VP_assume(hi < x);
    if (MODE == 2) VP_assume(x < lo);
    if (one) this->applyConstraint(&v, VP_K()); else this->applyConstraint(&v);
    if constexpr (KIND != 5) {
      in(v);
      VP_assert(comp(v) == (MODE == 0 ? x : MODE == 1 ? hi : lo), "clamped_to_nearest_side");
    } else VP_assert(comp(v) == x, "clamped_to_nearest_side");
    VP_reach("after");
  }
  void delta_() {
    prep();
    V v;
    shape(v);
    const T x = comp(v);
    if constexpr (KIND != 5 && KIND != 4) { VP_assume(lo <= x); VP_assume(x <= hi); }
    this->applyDelta(&v);
    in(v);
    if constexpr (KIND == 0 || KIND == 1 || KIND == 6) VP_assert(comp(v) >= x - 1 && comp(v) <= x + 1, "step_size");
    if constexpr (KIND == 2 || KIND == 3 || KIND == 5 || KIND == 7) VP_assert(comp(v) >= x - dl && comp(v) <= x + dl, "step_size");
    VP_reach("after");
  }
};
#define H(N, V, K, ...) \
 void N##_access() { Bx<V, __VA_ARGS__, K> s; s.access(); } \
 void N##_dims() { Bx<V, __VA_ARGS__, K> s; s.dims(); } \
 void N##_init() { Bx<V, __VA_ARGS__, K> s; s.init(); } \
 void N##_in() { Bx<V, __VA_ARGS__, K> s; s.template clamp<0>(false); } \
 void N##_above() { Bx<V, __VA_ARGS__, K> s; s.template clamp<1>(false); } \
 void N##_below() { Bx<V, __VA_ARGS__, K> s; s.template clamp<2>(false); } \
 void N##_in1() { Bx<V, __VA_ARGS__, K> s; s.template clamp<0>(true); } \
 void N##_above1() { Bx<V, __VA_ARGS__, K> s; s.template clamp<1>(true); } \
 void N##_below1() { Bx<V, __VA_ARGS__, K> s; s.template clamp<2>(true); } \
 void N##_delta() { Bx<V, __VA_ARGS__, K> s; s.delta_(); }
#define HB(N, V, K, ...) \
 void N##_access() { Bx<V, __VA_ARGS__, K> s; s.access(); } \
 void N##_dims() { Bx<V, __VA_ARGS__, K> s; s.dims(); } \
 void N##_init() { Bx<V, __VA_ARGS__, K> s; s.init(); } \
 void N##_delta() { Bx<V, __VA_ARGS__, K> s; s.delta_(); }
using IA = std::array<int, 6>;
using IV = std::vector<int>;
using IE = Eigen::ArrayXi;
using DA = std::array<double, 6>;
using DV = std::vector<double>;
using DF = Eigen::Array<double, 6, 1>;
using DE = Eigen::ArrayXd;
using BA = std::array<bool, 6>;
H(dsa, IA, 0, DiscretBox<IA, BoxShape::SQUARE_BOX>)
H(dsv, IV, 0, DiscretBox<IV, BoxShape::SQUARE_BOX>)
H(dse, IE, 0, DiscretBox<IE, BoxShape::SQUARE_BOX>)
H(dra, IA, 1, DiscretBox<IA, BoxShape::RECTANGLE_BOX>)
H(drv, IV, 1, DiscretBox<IV, BoxShape::RECTANGLE_BOX>)
H(csa, DA, 2, ContinousBox<DA, BoxShape::SQUARE_BOX>)
H(csv, DV, 2, ContinousBox<DV, BoxShape::SQUARE_BOX>)
H(cse, DE, 2, ContinousBox<DE, BoxShape::SQUARE_BOX>)
H(cra, DA, 3, ContinousBox<DA, BoxShape::RECTANGLE_BOX>)
H(crv, DV, 3, ContinousBox<DV, BoxShape::RECTANGLE_BOX>)
H(crf, DF, 3, ContinousBox<DF, BoxShape::RECTANGLE_BOX>)
H(cre, DE, 3, ContinousBox<DE, BoxShape::RECTANGLE_BOX>)
HB(bba, BA, 4, DiscretBox<BA, BoxShape::SQUARE_BOX>)
H(gdv, DV, 5, GaussianBox<DV>)
H(gde, DE, 5, GaussianBox<DE>)
using IM = Eigen::ArrayXXi;
using IF = Eigen::Array<int, 2, 3>;
using DM = Eigen::ArrayXXd;
using DN = Eigen::Array<double, 2, 3>;
H(dsm, IM, 0, DiscretBox<IM, BoxShape::SQUARE_BOX>)
H(dsn, IF, 0, DiscretBox<IF, BoxShape::SQUARE_BOX>)
H(drm, IM, 1, DiscretBox<IM, BoxShape::RECTANGLE_BOX>)
H(drn, IF, 1, DiscretBox<IF, BoxShape::RECTANGLE_BOX>)
H(csm, DM, 2, ContinousBox<DM, BoxShape::SQUARE_BOX>)
H(csn, DN, 2, ContinousBox<DN, BoxShape::SQUARE_BOX>)
H(crm, DM, 3, ContinousBox<DM, BoxShape::RECTANGLE_BOX>)
H(crn, DN, 3, ContinousBox<DN, BoxShape::RECTANGLE_BOX>)
struct FixD : FixedDiscreteBox<IV, -3, 11> { static constexpr int FIXLO = -3, FIXHI = 11; };
struct FixC : FixedContinousBox17<DV, heu::encode(-1.5), heu::encode(4.25), heu::encode(0.125)> { static constexpr double FIXLO = -1.5, FIXHI = 4.25, FIXDL = 0.125; };
H(fdv, IV, 6, FixD)
H(fcv, DV, 7, FixC)
