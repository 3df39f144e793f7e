// C22: intersecting a set of segments.  All tuples of lattice segments (both
// directions, degenerate ones included) under exact and snapping scales,
// without and with enough other segments that the sweep is divided.
#include <deque>
#include <list>
#include "arr.hpp"
#include "cust.hpp"
#include <boost/polygon/polygon.hpp>
#include <boost/polygon/segment_utils.hpp>
namespace bp = boost::polygon;
using namespace arr;
namespace {
const i64 LO = -2147483648LL, HI = 2147483647LL;
struct S {
  P a, b;
};
typedef std::vector<S> Set;
std::string show(const Set& s, size_t n) {
  std::string r;
  for (size_t i = 0; i < n; ++i) r += " (" + std::to_string(s[i].a.x) + "," + std::to_string(s[i].a.y) + ")-(" + std::to_string(s[i].b.x) + "," + std::to_string(s[i].b.y) + ")";
  return r;
}
bool on(const S& s, const P& p) {
  return cross(s.a, s.b, p) == 0 && std::min(s.a.x, s.b.x) <= p.x && p.x <= std::max(s.a.x, s.b.x) && std::min(s.a.y, s.b.y) <= p.y && p.y <= std::max(s.a.y, s.b.y);
}
bool proper(const S& s, const S& t) { return sgn(cross(s.a, s.b, t.a)) * sgn(cross(s.a, s.b, t.b)) < 0 && sgn(cross(t.a, t.b, s.a)) * sgn(cross(t.a, t.b, s.b)) < 0; }
i64 fdiv(W a, W b) {
  if (b < 0) a = -a, b = -b;
  W q = a / b;
  if (a % b < 0) --q;
  return i64(q);
}
struct Pt2 {
  W x, y, d;  // x/d, y/d
};
Pt2 crossing(const S& s, const S& t) {
  W dx = s.b.x - s.a.x, dy = s.b.y - s.a.y, ex = t.b.x - t.a.x, ey = t.b.y - t.a.y;
  W d = dx * ey - dy * ex, n = W(t.a.x - s.a.x) * ey - W(t.a.y - s.a.y) * ex;
  // s.a + n/d * (dx,dy)
  return Pt2{W(s.a.x) * d + n * dx, W(s.a.y) * d + n * dy, d};
}
struct Item {
  size_t id;
  P a, b;
};
// exactScale: every crossing is a grid point and features are far apart
// wide: crossings are computed in floating point when both segments pass the
// resulting pixel, so the pixel may be a neighbour of the exact one
void judge(const Set& in, const std::vector<Item>& out, bool exactScale, mc::Case& c, const std::string& what) {
  std::vector<std::vector<S>> by(in.size());
  for (auto& o : out) {
    if (o.id >= in.size()) c.fail("id", what + ": identifier " + std::to_string(o.id));
    if (o.a == o.b) c.fail("degenerate", what + ": piece without length");
    by[o.id].push_back(S{o.a, o.b});
  }
  bool wide = false;
  for (auto& s : in) wide = wide || std::max(std::abs(s.a.x), std::abs(s.a.y)) > (1 << 24);
  // points where pieces may meet
  std::set<P> hot;
  for (auto& s : in) {
    hot.insert(s.a);
    hot.insert(s.b);
  }
  std::vector<std::set<P>> want(in.size());
  for (size_t i = 0; i < in.size(); ++i)
    for (size_t j = 0; j < in.size(); ++j) {
      if (i == j) continue;
      if (on(in[i], in[j].a)) want[i].insert(in[j].a);
      if (on(in[i], in[j].b)) want[i].insert(in[j].b);
      if (j > i || !proper(in[i], in[j])) continue;
      Pt2 q = crossing(in[i], in[j]);
      P f = {fdiv(q.x, q.d), fdiv(q.y, q.d)};
      for (int u = -1; u <= 1; ++u)
        for (int w = -1; w <= 1; ++w)
          if (wide || (!u && !w)) hot.insert(P{f.x + u, f.y + w});
      if (!wide && q.x % q.d == 0 && q.y % q.d == 0) want[i].insert(f), want[j].insert(f);
      else if (exactScale) c.fail("harness", "crossing off the grid");
    }
  if (wide)
    for (auto& w : want)
      for (auto& f : w)
        for (int u = -1; u <= 1; ++u)
          for (int v = -1; v <= 1; ++v) hot.insert(P{f.x + u, f.y + v});
  for (size_t i = 0; i < in.size(); ++i) {
    const S& s = in[i];
    if (s.a == s.b) {
      if (!by[i].empty()) c.fail("degenerate", what + ": pieces for a point");
      continue;
    }
    // the pieces form one chain from end to end
    std::map<P, std::vector<P>> nb;
    for (auto& p : by[i]) {
      nb[p.a].push_back(p.b);
      nb[p.b].push_back(p.a);
    }
    P at = s.a, from = s.a;
    size_t used = 0;
    std::vector<P> chain(1, at);
    while (!(at == s.b)) {
      auto& v = nb[at];
      if (v.size() != size_t(at == s.a ? 1 : 2)) c.fail("chain", what + ": pieces of segment " + std::to_string(i) + " do not form a chain at (" + std::to_string(at.x) + "," + std::to_string(at.y) + ")");
      P to = v[0] == from && v.size() == 2 ? v[1] : v[0];
      from = at;
      at = to;
      chain.push_back(at);
      if (++used > by[i].size()) c.fail("chain", what + ": pieces of segment " + std::to_string(i) + " run in a circle");
    }
    if (used != by[i].size() || nb[s.b].size() != 1) c.fail("chain", what + ": surplus pieces for segment " + std::to_string(i));
    for (auto& p : chain) {
      if (!hot.count(p)) c.fail("foreign_point", what + ": segment " + std::to_string(i) + " is cut at (" + std::to_string(p.x) + "," + std::to_string(p.y) + "), no end point or crossing");
      if (distSeg(D2{(long double)p.x, (long double)p.y}, s.a, s.b) >= 1.4142136L) c.fail("far", what + ": piece of segment " + std::to_string(i) + " strays to (" + std::to_string(p.x) + "," + std::to_string(p.y) + ")");
    }
    std::set<P> have(chain.begin(), chain.end());
    for (auto& p : want[i])
      if (!have.count(p)) c.fail("missing_cut", what + ": segment " + std::to_string(i) + " is not cut at (" + std::to_string(p.x) + "," + std::to_string(p.y) + ")");
    if (exactScale)
      for (auto& p : chain)
        if (!on(s, p)) c.fail("moved", what + ": segment " + std::to_string(i) + " moved though every crossing is a grid point");
  }
  for (size_t i = 0; i < out.size(); ++i)
    for (size_t j = i + 1; j < out.size(); ++j) {
      S p = {out[i].a, out[i].b}, q = {out[j].a, out[j].b};
      if (std::max(p.a.x, p.b.x) < std::min(q.a.x, q.b.x) || std::max(q.a.x, q.b.x) < std::min(p.a.x, p.b.x)) continue;
      if ((p.a == q.a && p.b == q.b) || (p.a == q.b && p.b == q.a)) continue;
      bool bad = proper(p, q);
      auto in1 = [](const S& s, const P& r) { return on(s, r) && !(r == s.a) && !(r == s.b); };
      bad = bad || in1(p, q.a) || in1(p, q.b) || in1(q, p.a) || in1(q, p.b);
      if (bad) c.fail("interior_contact", what + ": pieces (" + std::to_string(p.a.x) + "," + std::to_string(p.a.y) + ")-(" + std::to_string(p.b.x) + "," + std::to_string(p.b.y) + ") and (" + std::to_string(q.a.x) + "," + std::to_string(q.a.y) + ")-(" + std::to_string(q.b.x) + "," + std::to_string(q.b.y) + ") meet inside");
    }
}
template <class T>
void call(const Set& in, bool exactScale, unsigned v, mc::Case& c) {
  typedef bp::segment_data<T> Sg;
  typedef bp::point_data<T> Pt;
  auto mk = [](const S& s) { return Sg(Pt(T(s.a.x), T(s.a.y)), Pt(T(s.b.x), T(s.b.y))); };
  auto it = [](size_t id, const Sg& s) { return Item{id, P{i64(s.low().x()), i64(s.low().y())}, P{i64(s.high().x()), i64(s.high().y())}}; };
  std::vector<Item> out;
  std::vector<std::pair<std::size_t, Sg>> r;
  size_t pre = v & 1;
  if (pre) r.push_back(std::make_pair(77, mk(in[0])));
  if (v & 2) {
    std::list<Sg> l;
    for (auto& s : in) l.push_back(mk(s));
    bp::intersect_segments(r, l.begin(), l.end());
  } else {
    std::vector<Sg> l;
    for (auto& s : in) l.push_back(mk(s));
    bp::intersect_segments(r, l.begin(), l.end());
    // without identifiers: the same pieces in the same order
    if (v & 4) {
      std::vector<Sg> q;
      bp::intersect_segments(q, l.begin(), l.end());
      if (q.size() + pre != r.size()) c.fail("plain", "number of pieces without identifiers differs");
      for (size_t i = 0; i < q.size(); ++i)
        if (!(q[i] == r[i + pre].second)) c.fail("plain", "pieces without identifiers differ");
    }
  }
  if (pre && (r.empty() || r[0].first != 77 || !(r[0].second == mk(in[0])))) c.fail("append", "existing results disturbed");
  for (size_t i = pre; i < r.size(); ++i) out.push_back(it(r[i].first, r[i].second));
  judge(in, out, exactScale, c, "intersect");
  c.step();
}
struct Lat {
  std::vector<S> seg;   // both directions and points
  i64 S1;
};
// ordered pairs of lattice points, p != q unless `points`
std::shared_ptr<Lat> lat(int n, int m, bool directed, bool points, i64 scale) {
  auto r = std::make_shared<Lat>();
  std::vector<P> p;
  for (int x = 0; x <= n; ++x)
    for (int y = 0; y <= m; ++y) p.push_back(P{x, y});
  for (size_t i = 0; i < p.size(); ++i)
    for (size_t j = 0; j < p.size(); ++j) {
      if (i == j ? !points : (!directed && j < i)) continue;
      // undirected: the direction alternates
      bool f = !directed && (i + j) % 2;
      r->seg.push_back(f ? S{p[j], p[i]} : S{p[i], p[j]});
    }
  r->S1 = scale;
  return r;
}
typedef std::shared_ptr<Lat> LP;
// background: stacks of slanted segments with the given gaps, far to the right
void stack(Set& s, i64 x0, i64 lo, i64 hi, int n) {
  for (int k = 0; k < n; ++k) {
    S q = {P{x0 + 10 * k, lo + k}, P{x0 + 10 * k + 3, hi - k}};
    if (k & 1) std::swap(q.a, q.b);
    s.push_back(q);
  }
}
template <class T>
void tuples(mc::Engine& e, const std::string& nm, LP x, int L, const Emb& em, bool exactScale, int bg = 0) {
  size_t n = x->seg.size();
  i64 k = x->S1;
  e.add(nm, mc::ipow(n, L), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    Set s;
    for (int l = 0; l < L; ++l) {
      const S& q = x->seg[d.take(n)];
      auto f = [&](const P& p) { return em.lin(p.x * k, p.y * k, 1); };
      s.push_back(S{f(q.a), f(q.b)});
    }
    unsigned v = unsigned(mc::mix(i, 7));
    std::string b;
    if (bg == 1) {
      // one gap, at one of several heights relative to the lattice
      i64 h = em.oy + i64(v >> 8 & 15) * k / 4 - 1;
      stack(s, em.ox + 5000, h - 400, h, 20);
      stack(s, em.ox + 6000, h + 1 + (v >> 12 & 1), h + 400, 20);
      b = " gap at " + std::to_string(h);
    } else if (bg == 2) {
      // four stacks, three gaps one lattice unit apart
      i64 h = em.oy + i64(v >> 8 & 3) * k / 4;
      stack(s, em.ox + 5000, h - 400, h, 40);
      stack(s, em.ox + 6000, h, h + k, int(std::min<i64>(40, k / 2 - 1)));
      stack(s, em.ox + 7000, h + k, h + 2 * k, int(std::min<i64>(40, k / 2 - 1)));
      stack(s, em.ox + 8000, h + 2 * k, h + 2 * k + 400, 40);
      b = " gaps from " + std::to_string(h);
    }
    if (bg && (v & 32)) std::rotate(s.begin(), s.begin() + L, s.end());
    if (bg && (v & 32)) c.input(show(Set(s.end() - L, s.end()), L) + b);
    else c.input(show(s, L) + b);
    call<T>(s, exactScale, v, c);
    c.nontrivial(i);
  });
}
// user segment type, envelope
void envelopes(mc::Engine& e, LP x) {
  size_t n = x->seg.size() + 1;
  e.add("envelope", n * n * n, [=](u64 i, mc::Case& c) {
    std::vector<bp::segment_data<int>> v;
    u64 j = i;
    i64 xl = HI, yl = HI, xh = LO, yh = LO;
    Emb em(1, -1, -1);
    std::string in;
    for (int l = 0; l < 3; ++l, j /= n) {
      size_t k = j % n;
      if (k == n - 1) continue;
      P a = em.lin(x->seg[k].a.x, x->seg[k].a.y, 1), b = em.lin(x->seg[k].b.x, x->seg[k].b.y, 1);
      v.push_back(bp::segment_data<int>(bp::point_data<int>(int(a.x), int(a.y)), bp::point_data<int>(int(b.x), int(b.y))));
      xl = std::min(xl, std::min(a.x, b.x));
      xh = std::max(xh, std::max(a.x, b.x));
      yl = std::min(yl, std::min(a.y, b.y));
      yh = std::max(yh, std::max(a.y, b.y));
      in += "(" + std::to_string(a.x) + "," + std::to_string(a.y) + ")-(" + std::to_string(b.x) + "," + std::to_string(b.y) + ") ";
    }
    c.input(in);
    bp::rectangle_data<int> r(5, 6, 7, 8);
    bool ok = bp::envelope_segments(r, v.begin(), v.end());
    if (ok != !v.empty()) c.fail("envelope", "return value");
    if (v.empty()) {
      if (!(r == bp::rectangle_data<int>(5, 6, 7, 8))) c.fail("envelope", "rectangle changed by an empty range");
    } else if (bp::xl(r) != xl || bp::xh(r) != xh || bp::yl(r) != yl || bp::yh(r) != yh)
      c.fail("envelope", "wrong envelope");
    std::vector<std::pair<std::size_t, bp::segment_data<int>>> out;
    if (v.empty()) {
      bp::intersect_segments(out, v.begin(), v.end());
      if (!out.empty()) c.fail("empty", "pieces from nothing");
    }
    c.step();
    c.nontrivial(i);
  });
}
}  // namespace
MC_REGISTER(e) {
  i64 X3 = Arr(2, 2, false).S;
  tuples<int>(e, "pairs-exact", lat(2, 2, true, true, X3), 2, Emb(), true);
  tuples<int>(e, "triples-exact", lat(2, 2, true, true, X3), 3, Emb(), true);
  tuples<int>(e, "triples-1", lat(2, 2, true, true, 1), 3, Emb(1, -1, -1), false);
  tuples<int>(e, "triples-2", lat(2, 2, false, false, 2), 3, Emb(1, -3, -1), false);
  tuples<int>(e, "triples-full", lat(2, 2, false, true, 2147483647LL), 3, Emb(1, LO, LO), false);
  tuples<int>(e, "triples-full-hi", lat(2, 2, false, true, 2147483647LL), 3, Emb(1, LO + 1, LO + 1), false);
  tuples<int>(e, "triples-7", lat(2, 2, false, true, 7), 3, Emb(), false);
  tuples<int>(e, "pairs-4x4-1", lat(3, 3, true, true, 1), 2, Emb(1, -2, 5), false);
  tuples<int>(e, "pairs-4x4-full", lat(3, 3, true, true, 1431655765LL), 2, Emb(1, LO, LO), false);
  tuples<long long>(e, "triples-3-ll", lat(2, 2, false, true, 3), 3, Emb(1, 1000000, -5), false);
  tuples<int>(e, "quads-3x2-1", lat(2, 1, false, false, 1), 4, Emb(), false);
  tuples<int>(e, "cut-pairs-1", lat(2, 2, true, false, 1), 2, Emb(), false, 1);
  tuples<int>(e, "cut-pairs-40", lat(2, 2, false, false, 40), 2, Emb(), false, 1);
  tuples<int>(e, "cut-pairs-exact", lat(2, 2, false, false, X3), 2, Emb(1, -5, -70), true, 1);
  tuples<int>(e, "cut-triples-4", lat(2, 2, false, false, 4), 3, Emb(), false, 1);
  tuples<int>(e, "cuts-pairs-90", lat(2, 2, false, false, 90), 2, Emb(), false, 2);
  tuples<int>(e, "quads-3x3-1", lat(2, 2, false, false, 1), 4, Emb(), false);
  tuples<int>(e, "cut-triples-1", lat(2, 2, false, false, 1), 3, Emb(), false, 1);
  envelopes(e, lat(1, 1, true, true, 1));
  if (e.thorough()) {
    tuples<int>(e, "quads-3x3-5", lat(2, 2, false, false, 5), 4, Emb(1, -5, -5), false);
    tuples<int>(e, "quads-3x3-full", lat(2, 2, false, false, 2147483647LL), 4, Emb(1, LO, LO), false);
    tuples<int>(e, "triples-4x4-1", lat(3, 3, false, false, 1), 3, Emb(), false);
    tuples<int>(e, "triples-4x4-3", lat(3, 3, false, false, 3), 3, Emb(1, -4, -4), false);
    tuples<int>(e, "cuts-triples-90", lat(2, 2, false, false, 90), 3, Emb(), false, 2);
  }
}
