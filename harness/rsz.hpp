// Independent model of resizing: a region plus (or minus) one band per edge and
// one mitre per corner, or an n-gon swept along every edge.
#ifndef VERIF_RSZ_HPP
#define VERIF_RSZ_HPP
#include "arrlib.hpp"
using namespace arr;
using namespace boost::polygon::operators;
namespace {
struct V {
  double x, y;
};
struct Region {
  std::vector<Loop> in;   // counterclockwise shells
  std::vector<Loop> out;  // clockwise holes
  bool has(double x, double y) const {
    int w = 0;
    auto go = [&](const Loop& l) {
      for (size_t i = 0; i < l.size(); ++i) {
        const P &a = l[i], &b = l[(i + 1) % l.size()];
        if ((a.y <= y) == (b.y <= y)) continue;
        double t = double(b.x - a.x) * (y - a.y) - double(b.y - a.y) * (x - a.x);
        if (a.y <= y ? t > 0 : false) ++w;
        if (a.y > y && t < 0) --w;
      }
    };
    for (auto& l : in) go(l);
    for (auto& l : out) go(l);
    return w > 0;
  }
};
typedef std::vector<V> Conv;  // convex, any winding
bool inConv(const Conv& c, double x, double y) {
  int s = 0;
  for (size_t i = 0; i < c.size(); ++i) {
    const V &a = c[i], &b = c[(i + 1) % c.size()];
    double t = (b.x - a.x) * (y - a.y) - (b.y - a.y) * (x - a.x);
    int g = t > 0 ? 1 : t < 0 ? -1 : 0;
    if (!g) continue;
    if (s && s != g) return false;
    s = g;
  }
  return true;
}
struct Spec {
  Region r;
  std::vector<Conv> prim;  // square corners
  std::vector<std::pair<V, V>> edge;
  Conv gon;                // arcs
  bool grow = true;
  bool has(double x, double y) const {
    bool a = r.has(x, y);
    if (grow == a) return grow;
    for (auto& c : prim)
      if (inConv(c, x, y)) return grow;
    if (!gon.empty())
      for (auto& e : edge) {
        // (p - gon) meets e: clip e against p - gon
        double lo = 0, hi = 1;
        bool hit = true;
        for (size_t i = 0; hit && i < gon.size(); ++i) {
          V a = {x - gon[i].x, y - gon[i].y}, b = {x - gon[(i + 1) % gon.size()].x, y - gon[(i + 1) % gon.size()].y};
          auto f = [&](V q) { return (b.x - a.x) * (q.y - a.y) - (b.y - a.y) * (q.x - a.x); };
          double f0 = f(e.first), f1 = f(e.second);  // need f >= 0 (point reflection keeps the winding)
          if (f0 < 0 && f1 < 0) hit = false;
          else if (f0 < 0) lo = std::max(lo, f0 / (f0 - f1));
          else if (f1 < 0) hi = std::min(hi, f0 / (f0 - f1));
        }
        if (hit && lo <= hi) return grow;
      }
    return !grow;
  }
};
// amount d; every = also the corners between any two edges meeting in a vertex
// (where boundaries touch, each pairing of the edges is a legitimate corner)
std::vector<V> gon(double d, int n) {
  std::vector<V> v;
  for (int i = 0; i < n; ++i) {
    double a = (i + 0.5) * 2 * M_PI / n;
    v.push_back(V{d * cos(a), d * sin(a)});
  }
  return v;
}
Spec spec(const Region& r, bool grow, double d, int arc, bool every, bool corners) {
  Spec s;
  s.r = r;
  s.grow = grow;
  if (d <= 0) return s;
  const double o = grow ? d : -d;  // offset along the outer normal
  if (arc >= 0) s.gon = gon(d, arc < 3 ? 4 : arc);
  auto nrm = [&](P p, P q) {
    double dx = double(q.x - p.x), dy = double(q.y - p.y), L = std::sqrt(dx * dx + dy * dy);
    V v = {dy / L * o, -dx / L * o};
    return v;
  };
  std::map<P, std::vector<std::pair<P, P>>> at;  // vertex -> neighbours
  auto go = [&](const Loop& l) {
    for (size_t i = 0; i < l.size(); ++i) {
      P a = l[i], b = l[(i + 1) % l.size()], c = l[(i + 2) % l.size()];
      V va = {double(a.x), double(a.y)}, vb = {double(b.x), double(b.y)};
      s.edge.push_back({va, vb});
      if (arc >= 0) continue;
      V n1 = nrm(a, b);
      s.prim.push_back(Conv{va, vb, V{vb.x + n1.x, vb.y + n1.y}, V{va.x + n1.x, va.y + n1.y}});
      at[b].push_back(std::make_pair(a, c));
    }
  };
  for (auto& l : r.in) go(l);
  for (auto& l : r.out) go(l);
  for (auto& v : at) {
    if (!corners) break;
    auto& e = v.second;
    if (e.size() > 1 && !every) continue;
    for (auto& x : e)
      for (auto& y : e) {
        P a = x.first, b = v.first, c = y.second;
        V n1 = nrm(a, b), n2 = nrm(b, c), vb = {double(b.x), double(b.y)};
        W t = cross(a, b, c);
        if (!t || (t > 0) != s.grow) continue;
        double k = 1 + (n1.x * n2.x + n1.y * n2.y) / (d * d);
        V m = {vb.x + (n1.x + n2.x) / k, vb.y + (n1.y + n2.y) / k};
        s.prim.push_back(Conv{vb, V{vb.x + n1.x, vb.y + n1.y}, m, V{vb.x + n2.x, vb.y + n2.y}});
      }
  }
  return s;
}
// the mitred offset of some edge is shorter than 1 or reversed
bool vanishes(const Region& r, bool grow, double d) {
  const double o = grow ? d : -d;
  auto mit = [&](P a, P b, P c) {
    auto nrm = [&](P p, P q) {
      double dx = double(q.x - p.x), dy = double(q.y - p.y), L = std::sqrt(dx * dx + dy * dy);
      V v = {dy / L * o, -dx / L * o};
      return v;
    };
    V n1 = nrm(a, b), n2 = nrm(b, c);
    double k = 1 + (n1.x * n2.x + n1.y * n2.y) / (d * d);
    V m = {b.x + (n1.x + n2.x) / k, b.y + (n1.y + n2.y) / k};
    return m;
  };
  std::map<P, std::vector<std::pair<P, P>>> at;
  auto go = [&](const Loop& l) {
    for (size_t i = 0, n = l.size(); i < n; ++i) at[l[(i + 1) % n]].push_back(std::make_pair(l[i], l[(i + 2) % n]));
  };
  for (auto& l : r.in) go(l);
  for (auto& l : r.out) go(l);
  for (auto& x : at)
    for (auto& e : x.second) {
      P a = x.first, b = e.second;
      double L = std::sqrt(double((b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y)));
      for (auto& p : at[a])
        for (auto& q : at[b]) {
          if (p.first == b || q.second == a) continue;
          V u = mit(p.first, a, b), v = mit(a, b, q.second);
          if ((v.x - u.x) * (b.x - a.x) / L + (v.y - u.y) * (b.y - a.y) / L < 1) return true;
        }
    }
  return false;
}
bool convex(const Loop& l) {
  for (size_t i = 0; i < l.size(); ++i)
    if (cross(l[i], l[(i + 1) % l.size()], l[(i + 2) % l.size()]) <= 0) return false;
  return true;
}
Region emb(const Region& r, i64 k, P o) {
  Region q = r;
  for (auto& l : q.in)
    for (auto& p : l) p = P{p.x * k + o.x, p.y * k + o.y};
  for (auto& l : q.out)
    for (auto& p : l) p = P{p.x * k + o.x, p.y * k + o.y};
  return q;
}
PS mk(const Region& r) {
  PS s;
  for (auto& l : r.in) s.insert(poly(l));
  for (auto& l : r.out) s.insert(poly(l), true);
  return s;
}
Region rd(const PS& s) {
  Region r;
  for (auto& p : read(s)) {
    r.in.push_back(p.shell);
    for (auto& h : p.holes) r.out.push_back(h);
  }
  return r;
}
std::string show(const Region& r) {
  std::string s;
  for (auto& l : r.in) s += "[" + arr::show(l) + "]";
  for (auto& l : r.out) s += "hole[" + arr::show(l) + "]";
  return s;
}
// got covers must (the smaller region) and stays within may
void compare(const Spec& must, const Spec& may, const Region& got, const std::vector<V>& near, int grid, double tol, mc::Case& c, const std::string& what) {
  double x0 = 1e18, y0 = 1e18, x1 = -1e18, y1 = -1e18;
  auto box = [&](double x, double y) {
    x0 = std::min(x0, x), x1 = std::max(x1, x), y0 = std::min(y0, y), y1 = std::max(y1, y);
  };
  for (auto& l : got.in)
    for (auto& p : l) box(p.x, p.y);
  for (auto& l : must.r.in)
    for (auto& p : l) box(p.x, p.y);
  for (auto& q : may.prim)
    for (auto& p : q) box(p.x, p.y);
  double w = std::max(x1 - x0, y1 - y0) / grid;
  u64 h = 7;
  auto at = [&](double x, double y) {
    bool g = got.has(x, y);
    const Spec& s = g ? may : must;
    h = mc::mix(h, g);
    if (g == s.has(x, y)) return;
    for (int k = 0; k < 16; ++k)
      if (s.has(x + tol * cos(k * M_PI / 8), y + tol * sin(k * M_PI / 8)) == g) return;
    char b[200];
    snprintf(b, sizeof b, "point (%.1f,%.1f) is %s: ", x, y, g ? "covered" : "missing");
    c.fail(g ? "extra_area" : "missing_area", what + b + show(got));
  };
  for (int i = -1; i <= grid + 1; ++i)
    for (int j = -1; j <= grid + 1; ++j) {
      double x = x0 + w * (i + 0.37), y = y0 + w * (j + 0.43);
      if (y > y1 + 2 * w || x > x1 + 2 * w) continue;
      at(x, y);
    }
  for (auto& p : near) at(p.x, p.y);
  c.state(h);
  c.nontrivial(h);
}
// points around the expected boundary
std::vector<V> around(const Region& r, bool grow, double d, const Spec& nominal) {
  std::vector<V> v;
  const double o = grow ? 1 : -1, eps = 4.5;
  auto nrm = [&](P p, P q) {
    double dx = double(q.x - p.x), dy = double(q.y - p.y), L = std::sqrt(dx * dx + dy * dy);
    V v = {dy / L * o, -dx / L * o};
    return v;
  };
  auto go = [&](const Loop& l) {
    for (size_t i = 0; i < l.size(); ++i) {
      P a = l[i], b = l[(i + 1) % l.size()], c = l[(i + 2) % l.size()];
      V n = nrm(a, b), n2 = nrm(b, c);
      double sup = d;
      if (!nominal.gon.empty()) {
        sup = 0;
        for (auto& g : nominal.gon) sup = std::max(sup, g.x * n.x + g.y * n.y);
      }
      for (double t : {0.1, 0.5, 0.9})
        for (double e : {-eps, eps}) v.push_back(V{a.x + t * (b.x - a.x) + n.x * (sup + e), a.y + t * (b.y - a.y) + n.y * (sup + e)});
      double k = 1 + n.x * n2.x + n.y * n2.y;
      if (k > 0.05)
        for (double e : {-eps, eps}) v.push_back(V{b.x + (n.x + n2.x) / k * (d + e), b.y + (n.y + n2.y) / k * (d + e)});
      for (auto& g : nominal.gon)
        for (double e : {-eps, eps}) v.push_back(V{b.x + g.x * (1 + e / d), b.y + g.y * (1 + e / d)});
    }
  };
  for (auto& l : r.in) go(l);
  for (auto& l : r.out) go(l);
  return v;
}
bool overlap(const Loop& a, const Loop& b) {
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < b.size(); ++j) {
      P p = a[i], q = a[(i + 1) % a.size()], r = b[j], t = b[(j + 1) % b.size()];
      if (cross(p, q, r) != 0 || cross(p, q, t) != 0) continue;
      if (q < p) std::swap(p, q);
      if (t < r) std::swap(r, t);
      if (std::max(p, r) < std::min(q, t)) return true;
    }
  return false;
}
// regions of one polygon, a polygon with a hole, or two polygons; boundaries
// may meet in points but share no edge
std::vector<Region> regions(const Arr& A, int k1, int k2) {
  std::vector<Region> v;
  auto a = simplePolys(A.n, A.m, k1), b = simplePolys(A.n, A.m, k2);
  for (auto& l : a) {
    Region r;
    r.in.push_back(l);
    v.push_back(r);
  }
  std::vector<Mask> ma, mb;
  for (auto& l : a) ma.push_back(A.mask(l));
  for (auto& l : b) mb.push_back(A.mask(l));
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < b.size(); ++j) {
      Mask both = ma[i] & mb[j];
      if (overlap(a[i], b[j])) continue;
      Region r;
      r.in.push_back(a[i]);
      if (both == mb[j]) r.out.push_back(Loop(b[j].rbegin(), b[j].rend()));
      else if (both.none()) r.in.push_back(b[j]);
      else continue;
      v.push_back(r);
    }
  return v;
}
struct Cfg {
  i64 k;
  P o;
  i64 d;
  int arc;      // -1: square corners, else number of segments
};
typedef std::shared_ptr<std::vector<Region>> RP;
void same(const PS& a, const PS& b, mc::Case& c, const std::string& what) {
  c.step();
  PS x = a, y = b;
  x.clean();
  y.clean();  // crossings are rounded when a set is cleaned
  x ^= y;
  if (!bp::empty(x)) c.fail("forms_differ", what + " differs: " + show(rd(b)) + " instead of " + show(rd(a)));
}
template <class F>
void forms(const Region& r, const PS& want, mc::Case& c, const std::string& what, F f) {
  PS s = mk(r);
  f(s);
  same(want, s, c, what + " on a set");
  std::vector<PH> h;
  mk(r).get(h);
  f(h);
  PS t;
  t.insert(h.begin(), h.end());
  same(want, t, c, what + " on polygons with holes");
}
// a shell with one or two holes strictly inside, whose edges all vanish at the
// same amount (triangles, squares, diamonds)
std::vector<Region> holed() {
  std::vector<Loop> shells = {Loop{P{-2, -2}, P{4, -2}, P{4, 4}, P{-2, 4}}, Loop{P{-4, -2}, P{9, -3}, P{0, 9}}, Loop{P{1, -3}, P{5, 1}, P{1, 5}, P{-3, 1}}};
  std::vector<Loop> hs;
  for (auto& l : simplePolys(2, 2, 4)) {
    bool keep = l.size() == 3;
    if (l.size() == 4) {
      auto len = [&](int i) { P a = l[i], b = l[(i + 1) % 4]; return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); };
      keep = convex(l) && len(0) == len(1) && len(1) == len(2) && len(2) == len(3);
    }
    if (keep) hs.push_back(Loop(l.rbegin(), l.rend()));
  }
  std::vector<Region> v;
  for (auto& s : shells)
    for (auto& h : hs) {
      Region r;
      r.in.push_back(s);
      r.out.push_back(h);
      v.push_back(r);
    }
  for (size_t a = 0; a < hs.size(); a += 4)
    for (size_t b = 0; b < hs.size(); b += 6) {
      const Loop &g = hs[a], &h = hs[(b + a / 4) % hs.size()];
      Region r;
      r.in.push_back(Loop{P{-2, -2}, P{9, -2}, P{9, 4}, P{-2, 4}});
      r.out.push_back(g);
      Loop t = h;
      for (auto& p : t) p.x += 5;
      r.out.push_back(t);
      v.push_back(r);
    }
  return v;
}
void family(mc::Engine& e, const std::string& name, RP rs, std::vector<Cfg> cfg, bool filter = true) {
  e.add(name, rs->size() * cfg.size(), [=](u64 i, mc::Case& c) {
    const Cfg& f = cfg[i % cfg.size()];
    Region r = emb((*rs)[i / cfg.size()], f.k, f.o);
    const bool grow = f.d > 0;
    const int d = int(grow ? f.d : -f.d), sd = int(f.d);
    if (c.verbose) c.input("resize(" + std::to_string(f.d) + (f.arc >= 0 ? ", arcs " + std::to_string(f.arc) : "") + ") of " + show(r));
    if (filter && f.arc < 0 && !(r.in.size() == 1 && r.out.empty() && convex(r.in[0])) && vanishes(r, grow, d + 1.)) return;
    const double t = 1.5;
    PS s;
    Spec small, big;
    s = mk(r);
    PS& ret = f.arc >= 0 ? s.resize(sd, true, unsigned(f.arc)) : s.resize(sd);
    c.require(&ret == &s, "reference", "resize does not return the set itself");
    small = spec(r, grow, d - t, f.arc, false, true);
    big = spec(r, grow, d + t, f.arc, true, true);
    Region got = rd(s);
    c.step();
    compare(grow ? small : big, grow ? big : small, got, around(r, grow, d, spec(r, grow, d, f.arc, false, true)), f.k > 100 ? 20 : f.arc < 0 ? 40 : 28, 1.0, c, "resize: ");
    auto arc = f.arc;
    forms(r, s, c, "free resize", [&](auto& x) { if (arc >= 0) bp::resize(x, sd, true, arc); else bp::resize(x, sd); });
    if (arc >= 0) return;
    PS m = mk(r);
    if (grow) m.bloat(unsigned(d));
    else m.shrink(unsigned(d));
    same(s, m, c, grow ? "member bloat" : "member shrink");
    forms(r, s, c, grow ? "free bloat" : "free shrink", [&](auto& x) { if (grow) bp::bloat(x, unsigned(d)); else bp::shrink(x, unsigned(d)); });
    PS a = mk(r);
    a += sd;
    same(s, a, c, "operator +=");
    PS b = mk(r);
    b -= -sd;
    same(s, b, c, "operator -=");
    PS o = mk(r);
    same(s, o + sd, c, "operator +");
    same(s, o - -sd, c, "operator -");
    same(mk(r), o, c, "operand of operator +");
  });
}
// rectilinear regions: the square-corner resize of the rectilinear set
void cells(mc::Engine& e, const std::string& name, int w, int h, std::vector<std::pair<i64, P>> emb_, std::vector<int> ds) {
  u64 n = mc::ipow(2, w * h);
  e.add(name, (n - 1) * emb_.size() * ds.size(), [=](u64 i, mc::Case& c) {
    mc::Digits g(i);
    int d = ds[g.take(ds.size())];
    auto& em = emb_[g.take(emb_.size())];
    u64 bits = g.v + 1;
    bp::polygon_90_set_data<int> s9;
    PS s;
    std::string in;
    for (int x = 0; x < w; ++x)
      for (int y = 0; y < h; ++y)
        if (bits >> (x * h + y) & 1) {
          bp::rectangle_data<int> r(int(em.first * x + em.second.x), int(em.first * y + em.second.y), int(em.first * (x + 1) + em.second.x), int(em.first * (y + 1) + em.second.y));
          s9.insert(r);
          s.insert(r);
        }
    Region r = rd(s);
    if (c.verbose) c.input("resize(" + std::to_string(d) + ") of " + show(r));
    if (vanishes(r, d > 0, std::abs(d) + 1.)) return;
    s.resize(d);
    s9.resize(d, d, d, d);
    PS t;
    t.insert(s9);
    c.state(mc::mix(bits, i));
    c.nontrivial(mc::mix(bits, d));
    same(t, s, c, "rectilinear resize");
  });
}
// amounts at which a whole part of a non-convex region disappears
struct Part {
  std::string what;
  std::vector<Loop> add, cut;
  int d;
};
void parts(mc::Engine& e) {
  auto box = [](i64 a, i64 b, i64 c, i64 d) { return Loop{P{a, b}, P{c, b}, P{c, d}, P{a, d}}; };
  std::vector<Part> v = {
      {"bar with a vanishing stub", {box(0, 0, 40, 20), box(10, 20, 14, 40)}, {}, -3},
      {"frame that vanishes", {box(0, 0, 40, 40)}, {box(5, 5, 35, 35)}, -3},
      {"slot that closes", {box(0, 0, 40, 40)}, {box(10, 10, 14, 30)}, 3},
      {"notch that closes", {box(0, 0, 40, 40)}, {box(10, 20, 14, 40)}, 3},
      {"head on a neck that vanishes", {box(0, 0, 20, 20), box(20, 9, 30, 11), box(30, 8, 34, 12)}, {}, -3},
      {"hole with a pocket that closes", {box(-10, -10, 60, 40)}, {box(0, 0, 20, 20), box(20, 9, 30, 11), box(30, 8, 34, 12)}, 3},
  };
  e.add("vanishing_parts", v.size(), [=](u64 i, mc::Case& c) {
    const Part& p = v[i];
    bp::polygon_90_set_data<int> s9;
    PS s;
    for (auto& l : p.add) s9.insert(mkpoly<bp::polygon_90_data<int>>(l)), s.insert(poly(l));
    for (auto& l : p.cut) s9.insert(mkpoly<bp::polygon_90_data<int>>(l), true), s.insert(poly(l), true);
    c.input(p.what + ": resize(" + std::to_string(p.d) + ") of " + show(rd(s)));
    s.resize(p.d);
    s9.resize(p.d, p.d, p.d, p.d);
    PS t;
    t.insert(s9);
    same(t, s, c, "rectilinear resize");
  });
  struct One {
    Loop l;
    int d;
  };
  std::vector<One> w = {
      {Loop{P{0, 0}, P{40, 0}, P{20, 20}, P{20, 40}}, -8},
      {Loop{P{0, 0}, P{20, 20}, P{40, 20}, P{0, 40}}, -8},
      {Loop{P{0, 0}, P{20, 0}, P{20, 20}, P{40, 0}, P{20, 40}}, 25},
      {Loop{P{0, 0}, P{20, 20}, P{20, 0}, P{40, 0}, P{20, 40}}, 25},
      {Loop{P{0, 0}, P{40, 0}, P{20, 20}, P{20, 40}}, 25},
      {Loop{P{0, 0}, P{20, 0}, P{20, 20}, P{40, 0}, P{20, 40}}, -25},
  };
  e.add("vanishing_edges", w.size(), [=](u64 i, mc::Case& c) {
    Region r;
    r.in.push_back(w[i].l);
    const bool grow = w[i].d > 0;
    double d = std::abs(w[i].d);
    c.input("resize(" + std::to_string(w[i].d) + ") of " + show(r));
    PS s = mk(r);
    s.resize(w[i].d);
    Spec small = spec(r, grow, d - 1.5, -1, false, true), big = spec(r, grow, d + 1.5, -1, true, true);
    compare(grow ? small : big, grow ? big : small, rd(s), {}, 60, 1.0, c, "resize: ");
    c.step();
  });
}
}  // namespace
#endif
