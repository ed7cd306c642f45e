#include <map>
// Linear-constraint kernel of the abstract domain: entailment between conjunctions of linear
// (in)equalities by Gauss elimination and Fourier-Motzkin projection with integer tightening.
// A row is  sum coef*var + c  (kind) 0 ; answers "entailed" only when exact arithmetic says so.
#include <algorithm>
#include <bitset>
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
typedef int64_t i64;
typedef __int128 i128;
struct Row {
  int kind, isint;  // 0 <=, 1 <, 2 =
  i64 c;
  std::vector<std::pair<int, i64>> t;
};
static std::vector<Row> rows;
static std::vector<char> varint_;
static int LIMIT = 1500;
typedef std::bitset<192> BS;
struct D {
  int kind;
  std::vector<i64> a;  // nv coefs + const at the end
  BS h;
};
static i64 gcdll(i64 a, i64 b) {
  if (a < 0) a = -a;
  if (b < 0) b = -b;
  while (b) { i64 t = a % b; a = b; b = t; }
  return a;
}
static const i64 LIM = (i64)1 << 60;
// 1 true, -1 false, 0 keep, 2 overflow(drop)
static int norm(D &d, const std::vector<char> &vi) {
  int nv = (int)d.a.size() - 1;
  i64 g = 0;
  bool isint = true;
  for (int i = 0; i < nv; i++)
    if (d.a[i]) {
      g = gcdll(g, d.a[i]);
      if (!vi[i]) isint = false;
    }
  i64 &c = d.a[nv];
  if (g == 0) {
    bool ok = d.kind == 0 ? c <= 0 : d.kind == 1 ? c < 0 : c == 0;
    return ok ? 1 : -1;
  }
  if (isint) {
    if (d.kind == 1) { c += 1; d.kind = 0; }
    if (g > 1) {
      if (d.kind == 2 && c % g) return -1;
      for (int i = 0; i < nv; i++) d.a[i] /= g;
      // sum <= floor(-c/g)
      i64 m = -c;
      i64 f = m / g;
      if (m % g != 0 && m < 0) f--;
      c = -f;
    }
  } else {
    g = gcdll(g, c);
    if (g > 1) for (auto &x : d.a) x /= g;
  }
  for (auto x : d.a) if (x > LIM || x < -LIM) return 2;
  return 0;
}
static bool combine(const D &p, i64 cp, const D &q, i64 cq, D &out) {
  // out = p*cp + q*cq
  size_t n = p.a.size();
  out.a.resize(n);
  for (size_t i = 0; i < n; i++) {
    i128 v = (i128)p.a[i] * cp + (i128)q.a[i] * cq;
    if (v > LIM || v < -LIM) return false;
    out.a[i] = (i64)v;
  }
  return true;
}
struct VH {
  size_t operator()(const std::vector<i64> &v) const {
    size_t h = 1469598103934665603ull;
    for (size_t i = 0; i + 1 < v.size(); i++) h = (h ^ (size_t)v[i]) * 1099511628211ull;
    return h;
  }
};
struct VE {
  bool operator()(const std::vector<i64> &a, const std::vector<i64> &b) const {
    return std::equal(a.begin(), a.end() - 1, b.begin());
  }
};
static void dedupe(std::vector<D> &w) {
  std::unordered_map<std::vector<i64>, int, VH, VE> best;
  std::vector<D> out;
  for (auto &d : w) {
    auto it = best.find(d.a);
    if (it == best.end()) {
      best[d.a] = (int)out.size();
      out.push_back(std::move(d));
    } else {
      D &o = out[it->second];
      i64 c0 = d.a.back(), c1 = o.a.back();
      if (c0 > c1 || (c0 == c1 && (d.kind > o.kind || (d.kind == o.kind && d.h.count() < o.h.count())))) o = std::move(d);
    }
  }
  w.swap(out);
}
// returns true if infeasible
static bool infeasible(std::vector<D> &all, std::vector<char> &vi) {
  int nv = (int)vi.size();
  std::vector<D> eqs, w;
  for (auto &d : all) {
    int r = norm(d, vi);
    if (r == -1) return true;
    if (r) continue;
    (d.kind == 2 ? eqs : w).push_back(std::move(d));
  }
  // two opposite inequalities are an equation
  auto promote = [&]() {
    std::map<std::vector<i64>, std::pair<i64, size_t>> up;  // linear part -> tightest bound
    for (size_t i = 0; i < w.size(); i++) {
      if (w[i].kind != 0) continue;
      std::vector<i64> key(w[i].a.begin(), w[i].a.end() - 1);
      auto it = up.find(key);
      if (it == up.end() || it->second.first < w[i].a.back()) up[key] = {w[i].a.back(), i};
    }
    std::vector<char> drop(w.size(), 0);
    bool any = false;
    for (auto &kv : up) {
      std::vector<i64> neg(kv.first);
      bool lead = false;
      for (auto &x : neg) { if (x && !lead) { lead = true; if (x < 0) goto next; } x = -x; }
      {
        auto it = up.find(neg);
        if (it != up.end() && it->second.first == -kv.second.first) {
          drop[kv.second.second] = drop[it->second.second] = 1;
          D e = w[kv.second.second];
          e.kind = 2;
          eqs.push_back(std::move(e));
          any = true;
        }
      }
    next:;
    }
    if (!any) return;
    std::vector<D> o;
    for (size_t i = 0; i < w.size(); i++) if (!drop[i]) o.push_back(std::move(w[i]));
    w.swap(o);
  };
  promote();
  while (!eqs.empty()) {
    // pick the equation/pivot with unit coefficient if any
    int be = -1, bp = -1;
    for (int e = 0; e < (int)eqs.size() && be < 0; e++)
      for (int i = 0; i < nv; i++)
        if (eqs[e].a[i] == 1 || eqs[e].a[i] == -1) { be = e; bp = i; break; }
    if (be < 0) {
      be = 0;
      for (int i = 0; i < nv; i++) if (eqs[0].a[i]) { bp = i; break; }
    }
    D e = std::move(eqs[be]);
    eqs.erase(eqs.begin() + be);
    i64 c = e.a[bp];
    auto sub = [&](std::vector<D> &v) -> int {
      std::vector<D> o;
      for (auto &d : v) {
        i64 k = d.a[bp];
        if (!k) { o.push_back(std::move(d)); continue; }
        D n;
        n.kind = d.kind;
        i64 m1 = c > 0 ? c : -c, m2 = c > 0 ? -k : k;
        i64 g = gcdll(m1, m2);
        if (!combine(d, m1 / g, e, m2 / g, n)) continue;
        int r = norm(n, vi);
        if (r == -1) return 1;
        if (r) continue;
        o.push_back(std::move(n));
      }
      v.swap(o);
      return 0;
    };
    if (sub(eqs)) return true;
    if (sub(w)) return true;
    if (eqs.empty()) promote();
  }
  dedupe(w);
  bool hist = w.size() <= 192;
  for (size_t i = 0; i < w.size(); i++) { w[i].h.reset(); if (hist) w[i].h.set(i); }
  int elim = 0;
  while (!w.empty()) {
    int best = -1;
    long bc = 0;
    for (int i = 0; i < nv; i++) {
      long p = 0, q = 0;
      for (auto &d : w) { if (d.a[i] > 0) p++; else if (d.a[i] < 0) q++; }
      if (!p && !q) continue;
      long cost = p * q - p - q;
      if (best < 0 || cost < bc) { best = i; bc = cost; }
    }
    if (best < 0) break;
    std::vector<D> nw, P, N;
    for (auto &d : w) {
      i64 x = d.a[best];
      if (x > 0) P.push_back(std::move(d)); else if (x < 0) N.push_back(std::move(d)); else nw.push_back(std::move(d));
    }
    elim++;
    if (nw.size() + P.size() * N.size() > (size_t)LIMIT * 4) return false;
    for (auto &p : P)
      for (auto &q : N) {
        D n;
        n.kind = (p.kind == 1 || q.kind == 1) ? 1 : 0;
        if (hist) {
          n.h = p.h | q.h;
          if ((int)n.h.count() > elim + 1) continue;
        }
        i64 a = p.a[best], b = -q.a[best], g = gcdll(a, b);
        if (!combine(p, b / g, q, a / g, n)) continue;
        int r = norm(n, vi);
        if (r == -1) return true;
        if (r) continue;
        nw.push_back(std::move(n));
      }
    dedupe(nw);
    if ((int)nw.size() > LIMIT) return false;
    w.swap(nw);
  }
  return false;
}
static std::unordered_map<std::string, char> memo;
static long n_q, n_fm;
static bool entailed(const std::vector<int> &ids, int neg, int skip = -1) {
  // connected component of the goal
  n_q++;
  const Row &g = rows[neg];
  std::vector<int> comp;
  {
    std::unordered_map<int, std::vector<int>> byvar;
    for (int id : ids)
      if (id != skip) for (auto &p : rows[id].t) byvar[p.first].push_back(id);
    std::vector<int> st;
    std::unordered_map<int, char> seenv, seenr;
    for (auto &p : g.t) { st.push_back(p.first); }
    while (!st.empty()) {
      int v = st.back();
      st.pop_back();
      if (seenv[v]) continue;
      seenv[v] = 1;
      auto it = byvar.find(v);
      if (it == byvar.end()) continue;
      for (int id : it->second) {
        if (seenr[id]) continue;
        seenr[id] = 1;
        comp.push_back(id);
        for (auto &p : rows[id].t) if (!seenv[p.first]) st.push_back(p.first);
      }
    }
  }
  std::sort(comp.begin(), comp.end());
  std::string key((const char *)comp.data(), comp.size() * sizeof(int));
  key.append((const char *)&neg, sizeof neg);
  auto mi = memo.find(key);
  if (mi != memo.end()) return mi->second;
  n_fm++;
  std::unordered_map<int, int> ix;
  std::vector<char> vi;
  auto scan = [&](const Row &r) {
    for (auto &p : r.t)
      if (ix.emplace(p.first, (int)vi.size()).second) vi.push_back(varint_[p.first]);
  };
  scan(g);
  for (int id : comp) scan(rows[id]);
  std::vector<D> all;
  auto conv = [&](const Row &r) {
    D d;
    d.kind = r.kind;
    d.a.assign(vi.size() + 1, 0);
    for (auto &p : r.t) d.a[ix[p.first]] = p.second;
    d.a.back() = r.c;
    all.push_back(std::move(d));
  };
  conv(g);
  for (int id : comp) conv(rows[id]);
  bool r = infeasible(all, vi);
  if (memo.size() > 2000000) memo.clear();
  memo[key] = r;
  return r;
}
extern "C" {
void lin_var(int v, int isint) {
  if ((int)varint_.size() <= v) varint_.resize(v + 1000, 0);
  varint_[v] = (char)isint;
}
int lin_row(int kind, i64 c, int n, const int *vars, const i64 *coefs) {
  Row r;
  r.kind = kind;
  r.c = c;
  for (int i = 0; i < n; i++) r.t.emplace_back(vars[i], coefs[i]);
  rows.push_back(std::move(r));
  return (int)rows.size() - 1;
}
int lin_entails(int n, const int *ids, int neg) {
  std::vector<int> v(ids, ids + n);
  return entailed(v, neg);
}
// drop rows (among cand) implied by the others; writes the surviving ids, returns count
// negs[i] = row id of the negation of cand[i] (or -1: keep)
int lin_minimise(int nall, const int *all, int nc, const int *cand, const int *negs, int *out) {
  std::vector<int> cur(all, all + nall);
  for (int i = 0; i < nc; i++) {
    if (negs[i] < 0) continue;
    if (entailed(cur, negs[i], cand[i])) cur.erase(std::find(cur.begin(), cur.end(), cand[i]));
  }
  std::copy(cur.begin(), cur.end(), out);
  return (int)cur.size();
}
void lin_stats(long *o) { o[0] = n_q; o[1] = n_fm; }
}
