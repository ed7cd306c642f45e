// simple matrices: every element has its own place, and keeps it through copies, moves and growth
#include "vp.h"
#include <HeuristicFlow/SimpleMatrix>
#include <string>
using namespace heu;
struct Rich {  // neither trivially constructible nor copyable
  double v;
  Rich() : v(0) {}
  Rich(double d) : v(d) {}
  Rich(const Rich& o) : v(o.v) {}
  Rich& operator=(const Rich& o) { v = o.v; return *this; }
  ~Rich() {}
};
static double val(double d) { return d; }
static double val(const Rich& r) { return r.v; }
template <class M, int R, int C> struct Full {
  using T = typename M::Scalar_t;
  double v[R * C];
  void put(M& m) {
    for (int j = 0; j < C; j++)
      for (int i = 0; i < R; i++) { v[j * R + i] = VP_any_double(); m(i, j) = T(v[j * R + i]); }
  }
  void same(const M& m, const char*) const { holds(m); }
  template <class X> void holds(const X& m) const {
    VP_assert(int(m.rows()) == R && int(m.cols()) == C && int(m.size()) == R * C, "shape");
    for (int j = 0; j < C; j++)
      for (int i = 0; i < R; i++) VP_equal(val(m(i, j)), v[j * R + i], "element");
    for (int k = 0; k < R * C; k++) {
      VP_equal(val(m[k]), v[k], "column_major");
      VP_equal(val(m(k)), v[k], "column_major");
      VP_equal(val(m.data()[k]), v[k], "column_major");
    }
  }
};
template <class M> static int steps(M& m) { int n = 0; for (auto& x : m) { (void)x; n++; } return n; }
template <class M, int R, int C> static void each(M& m) {
  using T = typename M::Scalar_t;
  Full<M, R, C> f;
  f.put(m);
  f.holds(m);
  VP_assert(steps(m) == R * C, "iterates_over_every_element");
  double s = 0, w = 0;
  for (auto& x : m) s += val(x);
  for (int k = 0; k < R * C; k++) w += f.v[k];
  VP_equal(s, w, "iterates_over_every_element");
  const double a = VP_any_double(), b = VP_any_double();
  m[R * C - 1] = T(a); f.v[R * C - 1] = a;
  f.holds(m);
  m.data()[0] = T(b); f.v[0] = b;
  f.holds(m);
  m.fill(T(a));
  for (int k = 0; k < R * C; k++) VP_equal(val(m[k]), a, "filled");
}
template <class T, int R, int C> static void fixed() {
  using M = MatrixFixedSize<T, R, C>;
  M m;
  each<M, R, C>(m);
  Full<M, R, C> f;
  f.put(m);
  M c(m);
  f.holds(c);
  M d;
  d = m;
  f.holds(d);
  d = d;
  f.holds(d);
  m.fill(T(VP_any_double()));
  f.holds(c);
  f.holds(d);
  VP_reach("after");
}
template <class T, int R, int C> static void dynamic() {
  using M = MatrixDynamicSize<T>;
  M e;
  VP_assert(e.size() == 0 && e.rows() == 0 && e.cols() == 0, "empty");
  M m(R, C);
  each<M, R, C>(m);
  Full<M, R, C> f;
  f.put(m);
  M c(m);
  f.holds(c);
  M d;
  d = m;
  f.holds(d);
  m.fill(T(VP_any_double()));
  f.holds(c);
  f.holds(d);
  VP_reach("after");
}
template <class T, int R, int C> static void moved() {
  using M = MatrixDynamicSize<T>;
  M m(R, C);
  Full<M, R, C> f;
  f.put(m);
  M c(std::move(m));
  f.holds(c);
  VP_assert(m.size() == 0, "moved_from_is_empty");
  M d(1, 2);
  d = std::move(c);
  f.holds(d);
  VP_assert(c.size() == 0, "moved_from_is_empty");
  VP_reach("after");
}
template <class T, int R, int C> static void grown() {
  using M = MatrixDynamicSize<T>;
  M m(R, C);
  Full<M, R, C> f;
  f.put(m);
  m.reserve(R * C + 5);
  VP_assert(m.capacity() >= R * C + 5, "reserved");
  f.holds(m);
  m.reserve(1);
  VP_assert(m.capacity() >= R * C + 5, "reserved");
  f.holds(m);
  m.resize(C, R);  // the same number of elements: the same elements, in another shape
  VP_assert(m.rows() == C && m.cols() == R, "shape");
  for (int k = 0; k < R * C; k++) VP_equal(val(m[k]), f.v[k], "column_major");
  m.resize(R + 1, C + 2);
  each<M, R + 1, C + 2>(m);
  m.resize(1, 1);
  each<M, 1, 1>(m);
  m.resize(R + 1, C + 1);
  each<M, R + 1, C + 1>(m);
  VP_reach("after");
}
template <class T, int R, int C> static void mixed() {
  using D = MatrixDynamicSize<T>;
  using F = MatrixFixedSize<T, R, C>;
  F m;
  Full<F, R, C> f;
  f.put(m);
  D d;
  d = m;
  f.holds(d);
  D e(R, C);
  e = m;
  f.holds(e);
  D g(1, 1);
  g = m;
  f.holds(g);
  Full<D, R, C> h;
  h.put(d);
  m = d;
  h.holds(m);
  f.holds(e);
  VP_reach("after");
}
template <class T, int R, int C> static void mapped() {
  using M = MatrixMap<T>;
  using F = MatrixFixedSize<T, R, C>;
  T mem[R * C];
  M m(mem, R, C);
  each<M, R, C>(m);
  Full<M, R, C> f;
  f.put(m);
  for (int k = 0; k < R * C; k++) VP_equal(val(mem[k]), f.v[k], "in_the_mapped_memory");
  M c(m);
  f.holds(c);
  T mem2[R * C];
  M d(mem2, R, C);
  d = m;
  for (int k = 0; k < R * C; k++) VP_equal(val(mem2[k]), f.v[k], "in_the_mapped_memory");
  F x;
  x = m;
  f.holds(x);
  Full<F, R, C> h;
  h.put(x);
  m = x;
  h.holds(m);
  for (int k = 0; k < R * C; k++) VP_equal(val(mem[k]), h.v[k], "in_the_mapped_memory");
  f.holds(d);
  VP_reach("after");
}
#define D(NAME) \
 void NAME##_d() { NAME<double, 2, 3>(); } \
 void NAME##_d1() { NAME<double, 3, 1>(); } \
 void NAME##_r() { NAME<Rich, 2, 3>(); } \
 void NAME##_r2() { NAME<Rich, 1, 2>(); }
D(fixed)
D(dynamic)
D(moved)
D(grown)
D(mixed)
D(mapped)
