// default genetic operators: initialisation, crossover and mutation of arbitrary parents, one arbitrary component tracked
#include <array>
#include <vector>
#include "vp.h"
#include <HeuristicFlow/Genetic>
using namespace heu;
template <class V> auto comp(const V& v) { return at(v, VP_K()); }
template <class V> struct Sz { static constexpr int n = 0; };
template <class T, std::size_t N> struct Sz<std::array<T, N>> { static constexpr int n = N; };
template <class T, int R> struct Sz<Eigen::Array<T, R, 1>> { static constexpr int n = R > 0 ? R : 0; };
template <class V> using El = typename array_traits<V>::Scalar_t;

// fixes the dimension before any state exists
template <class V> struct Dim {
  int n;
  Dim() {
    n = Sz<V>::n ? Sz<V>::n : VP_any_int();
    VP_assume(n >= 1 && n <= 1000000);
    VP_dims(n);
  }
};
template <class T> T bnd(T b, int) { return b; }
template <class T, std::size_t N> T bnd(const std::array<T, N>& b, int i) { return b[i]; }
template <class T, int N> T bnd(const Eigen::Array<T, N, 1>& b, int i) { return b[i]; }
template <class V> struct Parents : Dim<V> {
  using Dim<V>::n;
  V p, q, c, d;
  El<V> pk, qk;
  Parents() {
    if constexpr (Sz<V>::n == 0) { p.resize(n); q.resize(n); }
    VP_havoc_elems(p);
    VP_havoc_elems(q);
    pk = comp(p);
    qk = comp(q);
  }
  void done() {
    VP_assert(int(c.size()) == n && int(d.size()) == n, "child_size");
    VP_assert(comp(p) == pk && comp(q) == qk && int(p.size()) == n && int(q.size()) == n, "parents_untouched");
    VP_reach("after");
  }
};
template <class V> void swapped(Parents<V>& s) {
  const bool straight = comp(s.c) == s.pk && comp(s.d) == s.qk, crossed = comp(s.c) == s.qk && comp(s.d) == s.pk;
  VP_assert(straight || crossed, "components_of_the_parents");
  s.done();
}
template <class V, class B> void cSwap(const B* b) {
  Parents<V> s;
  if constexpr (std::is_void_v<B>) {
    if constexpr (Sz<V>::n) GADefaults<V>::cFunSwapNs(&s.p, &s.q, &s.c, &s.d); else GADefaults<V>::cFunSwapXs(&s.p, &s.q, &s.c, &s.d);
  } else {
    if constexpr (Sz<V>::n) GADefaults<V, B>::cFunSwapNs(&s.p, &s.q, &s.c, &s.d, b); else GADefaults<V, B>::cFunSwapXs(&s.p, &s.q, &s.c, &s.d, b);
  }
  swapped(s);
}
// one cut: the crossed components are those on one side of it; draws from the M-th quarter
template <class V, int M> void cCut() {
  V p, q, c, d;
  VP_havoc_elems(p);
  VP_havoc_elems(q);
  VP_assume(p[0] != q[0]); VP_assume(p[1] != q[1]); VP_assume(p[2] != q[2]); VP_assume(p[3] != q[3]);
  VP_draws(M / 4., (M + 1) / 4.);
  GADefaults<V>::cFunSwapNs(&p, &q, &c, &d);
  const bool x0 = c[0] == q[0], x1 = c[1] == q[1], x2 = c[2] == q[2], x3 = c[3] == q[3];
  VP_assert((x0 != x1) + (x1 != x2) + (x2 != x3) <= 1, "one_cut");
  VP_assert((c[0] == (x0 ? q : p)[0]) && (c[1] == (x1 ? q : p)[1]) && (c[2] == (x2 ? q : p)[2]) && (c[3] == (x3 ? q : p)[3]), "components_of_the_parents");
  VP_assert((d[0] == (x0 ? p : q)[0]) && (d[1] == (x1 ? p : q)[1]) && (d[2] == (x2 ? p : q)[2]) && (d[3] == (x3 ? p : q)[3]), "components_of_the_parents");
  VP_reach("after");
}
// MODE 0 any draws, 1 draws below the probability, 2 draws not below it
template <class V, class B, DivCode P, int NUM, int DEN, int MODE> void cRand(const B* b) {
  Parents<V> s;
  if constexpr (MODE == 1) VP_draws(0., double(NUM) / DEN);
  if constexpr (MODE == 2) VP_draws(double(NUM) / DEN, 1.);
  if constexpr (std::is_void_v<B>) {
    if constexpr (Sz<V>::n) GADefaults<V>::template cFunRandNs<P>(&s.p, &s.q, &s.c, &s.d); else GADefaults<V>::template cFunRandXs<P>(&s.p, &s.q, &s.c, &s.d);
  } else {
    if constexpr (Sz<V>::n) GADefaults<V, B>::template cFunRandNs<P>(&s.p, &s.q, &s.c, &s.d, b); else GADefaults<V, B>::template cFunRandXs<P>(&s.p, &s.q, &s.c, &s.d, b);
  }
  if constexpr (MODE == 1) VP_assert(comp(s.c) == s.pk && comp(s.d) == s.qk, "own_parent_below_the_probability");
  if constexpr (MODE == 2) VP_assert(comp(s.c) == s.qk && comp(s.d) == s.pk, "other_parent_otherwise");
  s.done();
}
template <class V, class B, DivCode R, int NUM, int DEN> void cReal(const B* b) {
  Parents<V> s;
  if constexpr (std::is_void_v<B>) {
    if constexpr (Sz<V>::n) GADefaults<V>::template cFunNd<R>(&s.p, &s.q, &s.c, &s.d); else GADefaults<V>::template cFunXd<R>(&s.p, &s.q, &s.c, &s.d);
  } else {
    if constexpr (Sz<V>::n) GADefaults<V, B>::template cFunNd<R>(&s.p, &s.q, &s.c, &s.d, b); else GADefaults<V, B>::template cFunXd<R>(&s.p, &s.q, &s.c, &s.d, b);
  }
  VP_assert(comp(s.c) * DEN == s.pk * NUM + s.qk * (DEN - NUM), "ratio_of_the_parents");
  VP_assert(comp(s.d) * DEN == s.qk * NUM + s.pk * (DEN - NUM), "ratio_of_the_parents");
  s.done();
}
template <class V> void iReal() {
  const int n = Dim<V>().n;
  V v;
  if constexpr (Sz<V>::n == 0) v.resize(n);
  GADefaults<V>::template iFunNd<DivEncode<-3, 2>::code, DivEncode<5, 4>::code>(&v);
  VP_assert(int(v.size()) == n, "child_size");
  VP_assert(comp(v) >= -1.5 && comp(v) <= 1.25, "in_box");
  V w;
  if constexpr (Sz<V>::n == 0) w.resize(n);
  GADefaults<V>::template iFunNf<>(&w);
  VP_assert(comp(w) >= 0 && comp(w) <= 1, "in_box");
  VP_reach("after");
}
template <class V, class B> struct Boxed : Dim<V> {
  using Dim<V>::n;
  B box;
  V a, b, d;
  El<V> lo, hi;
  Boxed() {
    if constexpr (Sz<V>::n == 0) box.setDimensions(n);
    if constexpr (B::Shape == BoxShape::SQUARE_BOX) {
      lo = any(); hi = any();
      VP_assume(lo < hi);
      box.setRange(lo, hi);
      if constexpr (std::is_floating_point_v<El<V>>) { const El<V> s = any(); VP_assume(s > 0); box.setDelta(s); }
    } else {
      if constexpr (Sz<V>::n == 0) { a.resize(n); b.resize(n); d.resize(n); }
      VP_havoc_elems(a); VP_havoc_elems(b); VP_havoc_elems(d);
      lo = comp(a); hi = comp(b);
      VP_assume(lo < hi);
      if constexpr (!std::is_floating_point_v<El<V>>) { VP_assume(lo >= -1000000); VP_assume(hi <= 1000000); }
      box.setRange(a, b);
      if constexpr (std::is_floating_point_v<El<V>>) { VP_assume(comp(d) > 0); box.setDelta(d); }
    }
  }
  static El<V> any() {
    if constexpr (std::is_floating_point_v<El<V>>) return VP_any_double();
    else { int v = VP_any_int(); VP_assume(v >= -1000000 && v <= 1000000); return v; }
  }
  void in(const V& v) {
    VP_assert(int(v.size()) == n, "child_size");
    VP_assert(lo <= comp(v) && comp(v) <= hi, "in_box");
  }
};
template <class V, class B> void iBox() {
  Boxed<V, B> s;
  V v;
  GADefaults<V, B>::template iFun<>(&v, &s.box);
  s.in(v);
  VP_reach("after");
}
// MODE 0 mFun, 1 mFun_s
template <class V, class B, int MODE> void mBox() {
  Boxed<V, B> s;
  V p, v;
  if constexpr (Sz<V>::n == 0) p.resize(s.n);
  VP_havoc_elems(p);
  const El<V> k = comp(p);
  VP_assume(s.lo <= k && k <= s.hi);
  if constexpr (MODE == 0) GADefaults<V, B>::template mFun<>(&p, &v, &s.box); else GADefaults<V, B>::template mFun_s<>(&p, &v, &s.box);
  s.in(v);
  VP_assert(comp(p) == k && int(p.size()) == s.n, "parents_untouched");
  VP_reach("after");
}
// the index is drawn from the M-th quarter: every other component of the gene stays
template <class V, class B, int M> void mOne() {
  Boxed<V, B> s;
  V p, v;
  VP_havoc_elems(p);
  for (int i = 0; i < 4; i++) VP_assume(p[i] >= -1000000 && p[i] <= 1000000);
  VP_assume(p[M] >= bnd(s.box.min(), M)); VP_assume(p[M] <= bnd(s.box.max(), M));
  VP_draws(M / 4., (M + 1) / 4.);
  GADefaults<V, B>::template mFun_s<>(&p, &v, &s.box);
  VP_assert((v[0] != p[0]) + (v[1] != p[1]) + (v[2] != p[2]) + (v[3] != p[3]) <= 1, "one_component_mutated");
  VP_reach("after");
}
using SA = std::array<double, 5>; using SV = std::vector<double>; using EA = Eigen::Array<double, 6, 1>; using EV = Eigen::ArrayXd;
using IA = std::array<int, 5>; using IV = std::vector<int>; using EI = Eigen::Array<int, 6, 1>; using EXI = Eigen::ArrayXi;
template <class V> using CS = ContinousBox<V, BoxShape::SQUARE_BOX>;
template <class V> using CR = ContinousBox<V, BoxShape::RECTANGLE_BOX>;
template <class V> using DS = DiscretBox<V, BoxShape::SQUARE_BOX>;
template <class V> using DR = DiscretBox<V, BoxShape::RECTANGLE_BOX>;
constexpr DivCode Q = DivEncode<1, 4>::code, F = DivEncode<1, 5>::code, T = DivEncode<7, 10>::code;
#define CUT(p, V) void p##_cut0() { cCut<V, 0>(); } void p##_cut1() { cCut<V, 1>(); } void p##_cut2() { cCut<V, 2>(); } void p##_cut3() { cCut<V, 3>(); }
using S4 = std::array<double, 4>;
#define ONE(p, V) void p##_one0() { mOne<V, DS<V>, 0>(); } void p##_one1() { mOne<V, DR<V>, 1>(); } void p##_one2() { mOne<V, DR<V>, 2>(); } void p##_one3() { mOne<V, DS<V>, 3>(); }
using I4 = std::array<int, 4>;
ONE(e, Eigen::Array4i) ONE(s, I4)
CUT(e, Eigen::Array4d) CUT(s, S4)
#define REAL(p, V)                                                     \
  void p##_swap() { cSwap<V, void>(nullptr); }                         \
  void p##_swapb() { CS<V> b; cSwap<V, CS<V>>(&b); }                   \
  void p##_rand() { cRand<V, void, Q, 1, 4, 0>(nullptr); }             \
  void p##_rand1() { cRand<V, void, Q, 1, 4, 1>(nullptr); }            \
  void p##_rand2() { cRand<V, void, Q, 1, 4, 2>(nullptr); }            \
  void p##_randb() { CS<V> b; cRand<V, CS<V>, T, 7, 10, 1>(&b); }      \
  void p##_randb2() { CS<V> b; cRand<V, CS<V>, T, 7, 10, 2>(&b); }     \
  void p##_real() { cReal<V, void, Q, 1, 4>(nullptr); }                \
  void p##_realb() { CR<V> b; cReal<V, CR<V>, DivCode::DivCode_Half, 1, 2>(&b); } \
  void p##_init() { iReal<V>(); }                                      \
  void p##_ibox() { iBox<V, CS<V>>(); }                                \
  void p##_mbox() { mBox<V, CR<V>, 0>(); }                             \
  void p##_mboxs() { mBox<V, CS<V>, 0>(); }
#define INTS(p, V)                                                     \
  void p##_swap() { cSwap<V, void>(nullptr); }                         \
  void p##_rand() { cRand<V, void, Q, 1, 4, 0>(nullptr); }             \
  void p##_ibox() { iBox<V, DR<V>>(); }                                \
  void p##_mbox() { mBox<V, DS<V>, 0>(); }                             \
  void p##_msym() { mBox<V, DS<V>, 1>(); }                             \
  void p##_msymr() { mBox<V, DR<V>, 1>(); }
REAL(sa, SA) REAL(sv, SV) REAL(ea, EA) REAL(ev, EV)
INTS(ia, IA) INTS(iv, IV) INTS(ei, EI) INTS(exi, EXI)
