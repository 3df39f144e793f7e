// Polygons on an irregular lattice: every lattice point is displaced by its own
// offset, so no two edges are related and crossings fall anywhere.  Results are
// compared with the operands at points farther than a few units from every edge.
#ifndef VERIF_JIT_HPP
#define VERIF_JIT_HPP
#include "arrlib.hpp"
namespace jit {
using namespace arr;
using namespace boost::polygon::operators;
typedef long double LD;
struct Q {
  LD x, y;
};
inline int windAt(const Loop& l, const Q& s) {
  int w = 0;
  for (size_t i = 0, n = l.size(); i < n; ++i) {
    const P &a = l[i], &b = l[i + 1 == n ? 0 : i + 1];
    if ((a.y <= s.y) == (b.y <= s.y)) continue;
    LD t = LD(b.x - a.x) * (s.y - a.y) - LD(b.y - a.y) * (s.x - a.x);
    if (a.y <= s.y) w += t > 0;
    else w -= t < 0;
  }
  return w;
}
inline LD distEdge(const P& a, const P& b, const Q& s) {
  LD dx = b.x - a.x, dy = b.y - a.y, t = ((s.x - a.x) * dx + (s.y - a.y) * dy) / (dx * dx + dy * dy);
  t = std::max(LD(0), std::min(LD(1), t));
  LD u = a.x + t * dx - s.x, v = a.y + t * dy - s.y;
  return std::sqrt(u * u + v * v);
}
inline LD distLoops(const std::vector<Loop>& v, const Q& s) {
  LD d = 1e30L;
  for (auto& l : v)
    for (size_t i = 0; i < l.size(); ++i) d = std::min(d, distEdge(l[i], l[(i + 1) % l.size()], s));
  return d;
}
// sample points: a grid, both sides of every edge, around every crossing
inline std::vector<Q> samples(const std::vector<Loop>& v, int grid, LD eps) {
  std::vector<Q> r;
  LD x0 = 1e30L, y0 = 1e30L, x1 = -1e30L, y1 = -1e30L;
  std::vector<std::pair<P, P>> e;
  for (auto& l : v)
    for (size_t i = 0; i < l.size(); ++i) {
      P a = l[i], b = l[(i + 1) % l.size()];
      e.push_back(std::make_pair(a, b));
      x0 = std::min(x0, LD(a.x)), x1 = std::max(x1, LD(a.x)), y0 = std::min(y0, LD(a.y)), y1 = std::max(y1, LD(a.y));
      LD dx = b.x - a.x, dy = b.y - a.y, L = std::sqrt(dx * dx + dy * dy);
      for (LD t : {0.07L, 0.31L, 0.5L, 0.77L, 0.96L})
        for (LD s : {-eps, eps}) r.push_back(Q{a.x + t * dx + dy / L * s, a.y + t * dy - dx / L * s});
    }
  for (size_t i = 0; i < e.size(); ++i)
    for (size_t j = i + 1; j < e.size(); ++j) {
      LD dx = e[i].second.x - e[i].first.x, dy = e[i].second.y - e[i].first.y, ex = e[j].second.x - e[j].first.x, ey = e[j].second.y - e[j].first.y;
      LD den = dx * ey - dy * ex;
      if (den == 0) continue;
      LD fx = e[j].first.x - e[i].first.x, fy = e[j].first.y - e[i].first.y, t = (fx * ey - fy * ex) / den, u = (fx * dy - fy * dx) / den;
      if (t < 0 || t > 1 || u < 0 || u > 1) continue;
      LD x = e[i].first.x + t * dx, y = e[i].first.y + t * dy;
      for (int k = 0; k < 8; ++k) r.push_back(Q{x + 3 * eps * std::cos(k * 0.7854L + 0.2L), y + 3 * eps * std::sin(k * 0.7854L + 0.2L)});
    }
  for (int i = 0; i < grid; ++i)
    for (int j = 0; j < grid; ++j) r.push_back(Q{x0 + (x1 - x0) * (i + 0.37L) / grid, y0 + (y1 - y0) * (j + 0.43L) / grid});
  return r;
}
inline int coverage(const std::vector<Poly>& v, const Q& s) {
  int n = 0;
  for (auto& p : v) {
    int w = windAt(p.shell, s);
    for (auto& h : p.holes) w += windAt(h, s);
    n += w;
  }
  return n;
}
struct Lat {
  int n;
  i64 k;
  P o;
  int jit;  // which displacement table
  P operator()(const P& p) const {
    static const i64 prime[3][16] = {{0, 7, -3, 11, -13, 5, 17, -19, 2, 23, -29, 31, -1, 13, 37, -41}, {997, -1009, 331, 613, -757, 101, -887, 409, 53, -673, 719, -211, 859, -503, 271, -17}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}};
    int i = int(p.x * (n + 1) + p.y) % 16, j = int(p.y * (n + 1) + p.x + 5) % 16;
    i64 m = jit == 1 ? std::max<i64>(1, k / 20000) : 1;  // table 1: up to 5% of the spacing
    return P{p.x * k + o.x + m * prime[jit][i], p.y * k + o.y + m * prime[jit][j]};
  }
  Loop operator()(const Loop& l) const {
    Loop r;
    for (auto& p : l) r.push_back((*this)(p));
    return r;
  }
};
inline void agree(const PS& s, const std::vector<Q>& q, const std::vector<Loop>& ops, const std::function<bool(const Q&)>& want, LD tol, mc::Case& c, const std::string& what) {
  std::vector<Poly> got = read(s);
  u64 h = 3;
  for (auto& p : q) {
    int g = coverage(got, p);
    h = mc::mix(h, u64(g));
    if (g == int(want(p))) continue;
    if (distLoops(ops, p) < tol) continue;
    char b[160];
    snprintf(b, sizeof b, ": (%.2Lf,%.2Lf) covered %d times: ", p.x, p.y, g);
    c.fail(g ? "extra_area" : "missing_area", what + b + arr::show(got));
  }
  c.state(h);
  c.nontrivial(h);
  c.step();
}
inline bool simpleLoop(const Loop& l) {
  for (size_t i = 0; i < l.size(); ++i) {
    if (cross(l[i], l[(i + 1) % l.size()], l[(i + 2) % l.size()]) == 0) return false;
    for (size_t j = i + 2; j < l.size(); ++j) {
      if (i == 0 && j + 1 == l.size()) continue;
      if (touchSeg(l[i], l[i + 1], l[j], l[(j + 1) % l.size()])) return false;
    }
  }
  return area2(l) > 0;
}
typedef std::shared_ptr<std::vector<Loop>> LP;
// all ordered pairs, four operations, decomposition of each result
inline void pairs(mc::Engine& e, const std::string& name, LP polys, const Lat& lat, int grid) {
  u64 n = polys->size();
  e.add(name, n * n, [=](u64 i, mc::Case& c) {
    Loop a = lat((*polys)[i / n]), b = lat((*polys)[i % n]);
    if (c.verbose) c.input(arr::show(a) + " and " + arr::show(b));
    if (!simpleLoop(a) || !simpleLoop(b)) return;
    PS A, B;
    A.insert(poly(a));
    B.insert(poly(b));
    std::vector<Loop> ops = {a, b};
    std::vector<Q> q = samples(ops, grid, 4.5L);
    auto ina = [&](const Q& p) { return windAt(a, p) != 0; };
    auto inb = [&](const Q& p) { return windAt(b, p) != 0; };
    const LD t = 2.9L;
    PS r[4];
    r[0] = A | B;
    r[1] = A & B;
    r[2] = A - B;
    r[3] = A ^ B;
    agree(r[0], q, ops, [&](const Q& p) { return ina(p) || inb(p); }, t, c, "A|B");
    agree(r[1], q, ops, [&](const Q& p) { return ina(p) && inb(p); }, t, c, "A&B");
    agree(r[2], q, ops, [&](const Q& p) { return ina(p) && !inb(p); }, t, c, "A-B");
    agree(r[3], q, ops, [&](const Q& p) { return ina(p) != inb(p); }, t, c, "A^B");
    for (int k = 0; k < 4; ++k) {
      std::vector<PD> tz;
      r[k].get_trapezoids(tz);
      LD at = 0, ar = bp::area(r[k]);
      for (auto& z : tz) at += bp::area(z);
      LD w = 0;
      for (auto& l : ops)
        for (size_t v = 0; v < l.size(); ++v) w += std::abs(LD(l[v].x - l[(v + 1) % l.size()].x)) + std::abs(LD(l[v].y - l[(v + 1) % l.size()].y));
      if (std::abs(at - ar) > 8 * w + 64) c.fail("trapezoid_area", "result " + std::to_string(k) + ": trapezoids " + std::to_string(double(at)) + " polygons " + std::to_string(double(ar)));
    }
  });
}
// three polygons combined in one go
inline void triples(mc::Engine& e, const std::string& name, LP polys, const Lat& lat, int grid) {
  u64 n = polys->size();
  e.add(name, n * n * n, [=](u64 i, mc::Case& c) {
    mc::Digits g(i);
    Loop l[3];
    for (auto& x : l) x = lat((*polys)[g.take(n)]);
    if (c.verbose) c.input(arr::show(l[0]) + " and " + arr::show(l[1]) + " and " + arr::show(l[2]));
    for (auto& x : l)
      if (!simpleLoop(x)) return;
    PS A, B, C;
    A.insert(poly(l[0]));
    B.insert(poly(l[1]));
    C.insert(poly(l[2]));
    std::vector<Loop> ops(l, l + 3);
    std::vector<Q> q = samples(ops, grid, 4.5L);
    auto in = [&](int k, const Q& p) { return windAt(l[k], p) != 0; };
    agree(PS((A | B) - C), q, ops, [&](const Q& p) { return (in(0, p) || in(1, p)) && !in(2, p); }, 3.9L, c, "(A|B)-C");
    agree(PS((A ^ B) & C), q, ops, [&](const Q& p) { return in(0, p) != in(1, p) && in(2, p); }, 3.9L, c, "(A^B)&C");
    PS m(A);
    m |= B;
    m |= C;
    agree(m, q, ops, [&](const Q& p) { return in(0, p) || in(1, p) || in(2, p); }, 3.9L, c, "A|B|C");
  });
}
}  // namespace jit
#endif
