// reference points of NSGA-III
#include "vp.h"
#include <HeuristicFlow/Genetic>
using namespace heu;
struct MV { double x; };
template <int OBJ, int N, ReferencePointOption R>
struct RP : NSGA3<MV, OBJ, DONT_RECORD_FITNESS, R> {
  using F = Eigen::Array<double, OBJ, 1>;
  void prep() { if constexpr (OBJ == Eigen::Dynamic) this->setObjectiveNum(N); }
  // the recursive generator, any precision: every point sums to one
  void simplex() {
    const std::size_t prec = VP_any_size();
    VP_assume(prec >= 1 && prec <= 1000);
    std::vector<F> pts;
    this->computeReferencePointPoses(N, prec, &pts);
    VP_assert(pts.size() >= 1, "some_points");
    for (auto& f : pts) {
      if (N == 2) VP_assert(f[0] + f[1] == 1.0, "on_simplex");
      if (N == 3) VP_assert(f[0] + f[1] + f[2] == 1.0, "on_simplex");
      VP_reach("after");
    }
  }
  // the generator for one precision: complete, no point twice
  void complete(std::size_t prec, std::size_t count) {
    std::vector<F> pts;
    this->computeReferencePointPoses(N, prec, &pts);
    VP_assert(pts.size() == count, "point_count");
    for (int i = 0; i < count; i++) {
      double s = 0;
      for (int r = 0; r < N; r++) {
        VP_assert(pts[i][r] >= 0, "not_negative");
        s += pts[i][r];
        bool grid = false;
        for (int k = 0; k <= prec; k++)
          if (pts[i][r] * prec == k) grid = true;
        VP_assert(grid, "multiple_of_the_step");
      }
      VP_assert(s == 1.0, "on_simplex");
      for (int j = 0; j < i; j++) {
        bool same = true;
        for (int r = 0; r < N; r++)
          if (pts[i][r] != pts[j][r]) same = false;
        VP_assert(!same, "no_point_twice");
      }
    }
    VP_reach("after");
  }
  // the matrix of points for one precision: as many points as announced, all on their simplex
  void matrix(std::size_t count, double inner, std::size_t inners) {
    VP_assert(this->referencePointCount() == count, "count_accessor");
    this->makeReferencePoses();
    const auto& m = this->referencePoints();
    VP_assert(m.rows() == N, "one_row_per_objective");
    VP_assert(m.cols() == count, "point_count");
    std::size_t outers = 0, ins = 0;
    for (int i = 0; i < m.cols(); i++) {
      double s = 0;
      for (int r = 0; r < N; r++) {
        VP_assert(m(r, i) >= 0, "not_negative");
        s += m(r, i);
      }
      if (s == 1.0) outers++;
      if (s == inner) ins++;
      for (int j = 0; j < i; j++) {
        bool same = true;
        for (int r = 0; r < N; r++)
          if (m(r, i) != m(r, j)) same = false;
        VP_assert(!same, "no_point_twice");
      }
    }
    VP_assert(outers == count - inners, "on_simplex");
    VP_assert(ins == inners, "on_inner_simplex");
    VP_reach("after");
  }
};
template <int OBJ, int N> void single(std::size_t p, std::size_t count) {
  RP<OBJ, N, SINGLE_LAYER> r;
  r.prep();
  r.setReferencePointPrecision(p);
  VP_assert(r.referencePointPrecision() == p, "accessor");
  r.matrix(count, -1, 0);
}
template <int OBJ, int N> void twice(std::size_t pi, std::size_t po, std::size_t ni, std::size_t no) {
  RP<OBJ, N, DOUBLE_LAYER> r;
  r.prep();
  r.setReferencePointPrecision(pi, po);
  VP_assert(r.innerPrecision() == pi && r.outerPrecision() == po, "accessor");
  r.matrix(ni + no, 0.70710678118654752440, ni);
}
template <int OBJ, int N> void all(std::size_t p, std::size_t count) { RP<OBJ, N, SINGLE_LAYER> r; r.prep(); r.complete(p, count); }
void a2_1() { all<2, 2>(1, 2); }
void a2_6() { all<2, 2>(6, 7); }
void a3_3() { all<3, 3>(3, 10); }
void a3_5() { all<3, 3>(5, 21); }
void a4_3() { all<4, 4>(3, 20); }
void a5_2() { all<5, 5>(2, 15); }
void ax_4() { all<Eigen::Dynamic, 3>(4, 15); }
void any2() { RP<2, 2, SINGLE_LAYER> r; r.simplex(); }
void any3() { RP<3, 3, SINGLE_LAYER> r; r.simplex(); }
void s2_1() { single<2, 2>(1, 2); }
void s2_4() { single<2, 2>(4, 5); }
void s2_12() { single<2, 2>(12, 13); }
void s3_3() { single<3, 3>(3, 10); }
void s3_4() { single<3, 3>(4, 15); }
void s3_7() { single<3, 3>(7, 36); }
void s4_3() { single<4, 4>(3, 20); }
void s5_2() { single<5, 5>(2, 15); }
void sx_4() { single<Eigen::Dynamic, 3>(4, 15); }
void sx_2() { single<Eigen::Dynamic, 4>(2, 10); }
void t2_23() { twice<2, 2>(2, 3, 3, 4); }
void t3_34() { twice<3, 3>(3, 4, 10, 15); }
void t3_43() { twice<3, 3>(4, 3, 15, 10); }
void t4_22() { twice<4, 4>(2, 2, 10, 10); }
void tx_23() { twice<Eigen::Dynamic, 3>(2, 3, 6, 10); }
// the number of points alone, for precisions whose factorials exceed 64 bits
template <int N> void number(std::size_t p, std::size_t count) {
  RP<N, N, SINGLE_LAYER> r;
  r.setReferencePointPrecision(p);
  VP_assert(r.referencePointCount() == count, "count_accessor");
  VP_reach("after");
}
void c3_12() { number<3>(12, 91); }
void c3_19() { number<3>(19, 210); }
void c5_10() { number<5>(10, 1001); }
void c8_20() { number<8>(20, 888030); }
