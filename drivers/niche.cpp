// NSGA-III: normalisation, association with reference lines and niche counting on small populations
#include "vp.h"
#include <HeuristicFlow/Genetic>
#include <cmath>
using namespace heu;
struct MV { int id; };
template <int OBJ, int N>
struct Ni : NSGA3<MV, OBJ> {
  using Base = NSGA3<MV, OBJ>;
  using Gene = typename Base::Gene_t;
  using F = Eigen::Array<double, OBJ, 1>;
  void prep() { if constexpr (OBJ == Eigen::Dynamic) this->setObjectiveNum(N); }
  void fill(F& f) { if constexpr (OBJ == Eigen::Dynamic) f.resize(N); for (int i = 0; i < N; i++) f[i] = VP_any_double(); }
  // the nearest of R reference lines
  template <int R> void nearest() {
    prep();
    this->referencePoses.resize(N, R);
    for (int j = 0; j < R; j++) for (int i = 0; i < N; i++) this->referencePoses(i, j) = VP_any_double();
    F s;
    fill(s);
    double d = VP_any_double();
    const std::size_t k = this->findNearest(s, &d);
    VP_assert(k < R, "index_of_a_reference_point");
    for (int j = 0; j < R; j++) {
      double ws = 0, ww = 0, dj = 0;
      for (int i = 0; i < N; i++) { ws += this->referencePoses(i, j) * s[i]; ww += this->referencePoses(i, j) * this->referencePoses(i, j); }
      for (int i = 0; i < N; i++) { const double e = this->referencePoses(i, j) * ws / ww - s[i]; dj += e * e; }
      VP_assert(d <= dj, "no_line_is_nearer");
      if (j == k) VP_equal(d, dj, "distance_to_the_line");
    }
    VP_reach("after");
  }
  double f[6][3];
  // K solutions, the first CHOSEN of them already selected, the others in the layer to be split
  template <int K> void members() {
    prep();
    for (int k = 0; k < K; k++) {
      this->_population.emplace_back();
      Gene& g = this->_population.back();
      g.decision_variable.id = k;
      if constexpr (OBJ == Eigen::Dynamic) { g.fitness.resize(N); g.translatedFitness.resize(N); }
      for (int i = 0; i < N; i++) { f[k][i] = VP_any_double(); g.fitness[i] = f[k][i]; }
    }
  }
  Gene& member(int k) { for (auto& g : this->_population) if (g.decision_variable.id == k) return g; return this->_population.front(); }
  // o0, o1, o2: the solutions in ascending order of each objective, smallest in the last digit
  template <int K, int CHOSEN> void normal(int o0, int o1, int o2, bool singular) {
    members<K>();
    int o[3] = {o0, o1, o2}, w[3], b[3];
    for (int i = 0; i < N; i++) {
      b[i] = o[i] % 10;
      for (int k = 1; k < K; k++) { const int lo = o[i] % 10; o[i] /= 10; VP_assume(f[lo][i] < f[o[i] % 10][i]); }
      w[i] = o[i] % 10;
    }
    std::unordered_set<Gene*> sel;
    std::vector<typename Base::GeneIt_t> Fl;
    int k = 0;
    for (auto it = this->_population.begin(); it != this->_population.end(); ++it, ++k) {
      if (k < CHOSEN) sel.emplace(&*it); else Fl.emplace_back(it);
    }
    this->normalize(sel, Fl);
    // the solution that is worst in objective c, seen from the ideal point
    double e[3][3];
    for (int c = 0; c < N; c++) for (int i = 0; i < N; i++) e[c][i] = f[w[c]][i] - f[b[i]][i];
    double det;
    if (N == 2) det = e[0][0] * e[1][1] - e[0][1] * e[1][0];
    else det = e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0]) + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0]);
    const bool flat = (det < 0 ? -det : det) <= 1e-10;
    VP_assume(flat == singular);
    k = 0;
    for (auto& g : this->_population) {
      double sum = 0;
      for (int i = 0; i < N; i++) {
        if (flat) VP_equal(g.translatedFitness[i], (f[k][i] - f[b[i]][i]) / e[i][i], "scaled_by_the_worst_values");
        else if (k == b[i]) VP_assert(g.translatedFitness[i] == 0, "ideal_point_is_the_origin");
        VP_equal(g.translatedFitness[i] * e[i][i], this->member(w[i]).translatedFitness[i] * (f[k][i] - f[b[i]][i]), "same_scale_for_all");
        sum += g.translatedFitness[i];
      }
      if (!flat) for (int c = 0; c < N; c++) if (k == w[c]) VP_equal(sum, 1, "extremes_on_the_unit_plane");
      k++;
    }
    VP_reach("after");
  }
  std::unordered_set<Gene*> sel;
  bool chosen(int k) { for (auto g : sel) if (g->decision_variable.id == k) return true; return false; }
  // digit k of REFS: the reference point of solution k; R reference points; the first CHOSEN solutions are selected already
  template <int K> void niche(int chosen0, int keep, int R, int refs) {
    members<K>();
    auto o = this->option();
    o.populationSize = keep;
    this->setOption(o);
    std::unordered_multimap<std::size_t, Gene*> Fl;
    std::unordered_map<std::size_t, std::size_t> points;
    for (int r = 0; r < R; r++) points.emplace(r, 0);
    int k = 0;
    for (auto& g : this->_population) {
      g.closestRefPoint = refs % 10;
      refs /= 10;
      g.distance = f[k][0];
      if (k < chosen0) sel.emplace(&g); else Fl.emplace(g.closestRefPoint, &g);
      k++;
    }
    this->nichePreservation(&sel, &Fl, &points);
    VP_assert(int(sel.size()) == keep, "configured_size");
    for (int i = 0; i < chosen0; i++) VP_assert(chosen(i), "better_layers_stay");
  }
};
// counts 2, 1, 0; nothing waits at the empty point: one of the two at the point with one member
void niche_least() { Ni<2, 2> s; s.template niche<6>(3, 4, 3, 110100); VP_assert(!s.chosen(3), "least_crowded_first"); VP_reach("after"); }
// counts 1, 0, 1: the nearest of the two that wait at the empty point
void niche_near() {
  Ni<2, 2> s;
  s.template niche<6>(2, 3, 3, 120120);
  VP_assert(!s.chosen(3) && !s.chosen(4), "least_crowded_first");
  VP_assert(s.f[s.chosen(2) ? 2 : 5][0] <= s.f[s.chosen(2) ? 5 : 2][0], "nearest_to_an_empty_line");
  VP_reach("after");
}
void niche_near2() {
  Ni<2, 2> s;
  s.template niche<5>(2, 3, 3, 11120);
  VP_assert(!s.chosen(2) || s.f[2][0] <= s.f[3][0] && s.f[2][0] <= s.f[4][0], "nearest_to_an_empty_line");
  VP_assert(!s.chosen(3) || s.f[3][0] <= s.f[2][0] && s.f[3][0] <= s.f[4][0], "nearest_to_an_empty_line");
  VP_assert(!s.chosen(4) || s.f[4][0] <= s.f[2][0] && s.f[4][0] <= s.f[3][0], "nearest_to_an_empty_line");
  VP_reach("after");
}
// counts 2, 0: the only one at the empty point, and then the only other one
void niche_both() { Ni<2, 2> s; s.template niche<5>(2, 4, 2, 1000 * 10 + 1000); VP_assert(s.chosen(3), "least_crowded_first"); VP_reach("after"); }
// no count yet: one for each of the two points
void niche_even() {
  Ni<2, 2> s;
  s.template niche<4>(0, 2, 2, 1100);
  VP_assert(s.chosen(0) != s.chosen(1), "least_crowded_first");
  VP_assert(s.chosen(2) != s.chosen(3), "least_crowded_first");
  VP_reach("after");
}
// all of a point's members are taken before a second round elsewhere only while they are the least crowded
void niche_run() {
  Ni<2, 2> s;
  s.template niche<6>(3, 5, 2, 110000 + 0);
  VP_assert(s.chosen(4) && s.chosen(5), "least_crowded_first");
  VP_reach("after");
}
void norm_a() { Ni<2, 2> s; s.template normal<3, 1>(12, 201, 0, false); }
void norm_b() { Ni<2, 2> s; s.template normal<3, 1>(12, 201, 0, true); }
void norm_c() { Ni<3, 3> s; s.template normal<4, 2>(132, 2310, 1023, false); }
void norm_d() { Ni<3, 3> s; s.template normal<4, 2>(132, 2310, 1023, true); }
void near2() { Ni<2, 2> s; s.nearest<3>(); }
void near3() { Ni<3, 3> s; s.nearest<2>(); }
void neard() { Ni<Eigen::Dynamic, 2> s; s.nearest<3>(); }
