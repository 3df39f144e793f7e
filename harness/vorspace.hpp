// Spaces of site sets, shared by the Voronoi checks.
#ifndef VERIF_VORSPACE_HPP
#define VERIF_VORSPACE_HPP
#include "vor.hpp"
#include <memory>
namespace vor {
// Integer affine embeddings of the small lattice.
struct Emb {
  const char* name;
  ll a, b, c, d, e, f;  // x' = a x + b y + c, y' = d x + e y + f
};
static const Emb EMB[] = {
    {"id", 1, 0, 0, 0, 1, 0},        {"shear", 2, 1, -3, -1, 3, 1}, {"stretch", 1, 0, -2, 0, 7, 3}, {"skew", 5, 3, 0, 2, -4, 7},
    {"rot90", 0, -1, 0, 1, 0, 0},    {"big", 1000, 1, -700, 3, 900, 11},
    {"huge", (1 << 27) + 1, 12345677, -(1 << 28), -7654321, (1 << 28) - 3, -(1 << 27)},
    {"wide", 268435399, 3, -268435456, 7, 1, -5},
};
inline std::vector<Obj> embed(std::vector<Obj> v, const Emb& m) {
  for (auto& o : v) {
    Obj r = o;
    r.x0 = m.a * o.x0 + m.b * o.y0 + m.c;
    r.y0 = m.d * o.x0 + m.e * o.y0 + m.f;
    r.x1 = m.a * o.x1 + m.b * o.y1 + m.c;
    r.y1 = m.d * o.x1 + m.e * o.y1 + m.f;
    o = r;
  }
  return v;
}
inline std::vector<Obj> maskPoints(u64 mask, int w, int h) {
  std::vector<Obj> v;
  for (int i = 0; i < w * h; ++i)
    if (mask >> i & 1) v.push_back(P(i % w, i / w));
  return v;
}
// All sets of ns segments and np points on a w x h lattice that are valid input.
// Segments take every ordered (start, end); with `both` false only start < end.
struct Space {
  std::vector<Obj> el;      // elements: segments then points
  size_t nseg;
  int k;
  std::vector<unsigned short> combo;
  u64 size() const { return combo.size() / k; }
  std::vector<Obj> get(u64 i) const {
    std::vector<Obj> v;
    for (int q = 0; q < k; ++q) v.push_back(el[combo[i * k + q]]);
    return v;
  }
};
// `sub`: with all distinct; points that coincide with end points are kept.
inline std::shared_ptr<Space> space(int w, int h, int ns, int np) {
  auto s = std::make_shared<Space>();
  int n = w * h;
  // lexicographic order of (x, y)
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j) s->el.push_back(S(i % w, i / w, j % w, j / w));
  s->nseg = s->el.size();
  for (int i = 0; i < n; ++i) s->el.push_back(P(i % w, i / w));
  s->k = ns + np;
  size_t m = s->el.size();
  std::vector<std::vector<char>> ok(m, std::vector<char>(m));
  for (size_t i = 0; i < m; ++i)
    for (size_t j = 0; j < m; ++j) ok[i][j] = compatible(norm(s->el[i]), norm(s->el[j]));
  std::vector<unsigned short> cur;
  std::function<void(int, size_t)> rec = [&](int d, size_t from) {
    if (d == s->k) {
      s->combo.insert(s->combo.end(), cur.begin(), cur.end());
      return;
    }
    size_t lo = d < ns ? 0 : s->nseg, hi = d < ns ? s->nseg : m;
    for (size_t i = std::max(lo, from); i < hi; ++i) {
      bool good = true;
      for (auto q : cur) good = good && ok[q][i];
      if (!good) continue;
      cur.push_back((unsigned short)i);
      rec(d + 1, i + 1);
      cur.pop_back();
    }
  };
  rec(0, 0);
  return s;
}
// all subsets of size k of the n lattice points, k given
inline u64 binom(int n, int k) {
  u64 r = 1;
  for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i;
  return r;
}
inline std::vector<Obj> pick(u64 idx, int w, int h, int k) {
  std::vector<Obj> v;
  int n = w * h;
  for (int i = n - 1; i >= 0 && k > 0; --i) {
    u64 b = binom(i, k);
    if (i >= k && idx >= b) {
      idx -= b;
      v.push_back(P(i % w, i / w));
      --k;
    } else if (i < k) {
      v.push_back(P(i % w, i / w));
      --k;
    }
  }
  return v;
}
typedef std::function<void(const std::vector<Obj>&, mc::Case&)> BodyFn;
inline u64 hashObj(const std::vector<Obj>& v) {
  u64 h = v.size();
  for (auto& o : v) h = mc::mix(mc::mix(mc::mix(mc::mix(mc::mix(h, o.seg), u64(o.x0)), u64(o.y0)), u64(o.x1)), u64(o.y1));
  return h;
}
inline void addMasks(mc::Engine& e, const std::string& n, int w, int h, const Emb* m, BodyFn f) {
  e.add(n + "-pts" + std::to_string(w) + "x" + std::to_string(h) + "-" + m->name, u64(1) << (w * h), [=](u64 i, mc::Case& c) { f(embed(maskPoints(i, w, h), *m), c); });
}
inline void addPick(mc::Engine& e, const std::string& n, int w, int h, int k, const Emb* m, BodyFn f) {
  e.add(n + "-pick" + std::to_string(k) + "of" + std::to_string(w) + "x" + std::to_string(h) + "-" + m->name, binom(w * h, k), [=](u64 i, mc::Case& c) { f(embed(pick(i, w, h, k), *m), c); });
}
inline void addSpace(mc::Engine& e, const std::string& n, int w, int h, int ns, int np, const Emb* m, BodyFn f) {
  auto s = space(w, h, ns, np);
  e.add(n + "-s" + std::to_string(ns) + "p" + std::to_string(np) + "-" + std::to_string(w) + "x" + std::to_string(h) + "-" + m->name, s->size(), [=](u64 i, mc::Case& c) { f(embed(s->get(i), *m), c); });
}
}  // namespace vor
#endif
