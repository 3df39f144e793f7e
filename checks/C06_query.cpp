// C06: queries and selections on Manhattan sets answer for the region.
#include "m90out.hpp"
using namespace m90;
using namespace boost::polygon::operators;

namespace {
template <class T>
long double areaOf(const Grid<T>& g, Mask m) {
  long double a = 0;
  for (int r = 0; r < g.H; ++r)
    for (int q = 0; q < g.W; ++q)
      if (g.has(m, q, r)) a += ((long double)g.xs[q + 1] - g.xs[q]) * ((long double)g.ys[r + 1] - g.ys[r]);
  return a;
}
template <class T>
bool extentsOf(const Grid<T>& g, Mask m, T* o) {
  int x0 = 99, x1 = -1, y0 = 99, y1 = -1;
  for (int r = 0; r < g.H; ++r)
    for (int q = 0; q < g.W; ++q)
      if (g.has(m, q, r)) x0 = std::min(x0, q), x1 = std::max(x1, q + 1), y0 = std::min(y0, r), y1 = std::max(y1, r + 1);
  if (x1 < 0) return false;
  o[0] = g.xs[x0], o[1] = g.xs[x1], o[2] = g.ys[y0], o[3] = g.ys[y1];
  return true;
}
// all region level queries of one set-like object
template <class T, class S>
void queries(const Grid<T>& g, const S& s, Mask m, mc::Case& c, const char* what) {
  c.step(3);
  long double a = (long double)bp::area(s), w = areaOf(g, m);
  if (a != w) c.fail("area", std::string(what) + ": area " + str(double(a)) + " want " + str(double(w)));
  if (bp::empty(s) != (m == 0)) c.fail("empty", std::string(what) + ": empty() wrong");
  bp::rectangle_data<T> ex;
  T o[4];
  bool has = extentsOf(g, m, o), got = bp::extents(ex, s);
  if (has != got) c.fail("extents", std::string(what) + ": extents() return value");
  if (has && !(bp::xl(ex) == o[0] && bp::xh(ex) == o[1] && bp::yl(ex) == o[2] && bp::yh(ex) == o[3]))
    c.fail("extents", std::string(what) + ": extents " + showRect(ex));
}
struct R4 {
  int x0, y0, x1, y1;
};
std::vector<R4> allRects(int W, int H) {
  std::vector<R4> v;
  for (int x0 = 0; x0 < W; ++x0)
    for (int x1 = x0 + 1; x1 <= W; ++x1)
      for (int y0 = 0; y0 < H; ++y0)
        for (int y1 = y0 + 1; y1 <= H; ++y1) v.push_back(R4{x0, y0, x1, y1});
  return v;
}

// sequences of k signed rectangles
template <class T>
void multiset(mc::Engine& e, const std::string& nm, const Grid<T>& g, int k, bool holes) {
  std::vector<R4> rs = allRects(g.W, g.H);
  u64 R = rs.size() * (holes ? 2 : 1);
  e.add(nm, mc::ipow(R, k) * 2, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    bp::orientation_2d o = d.take(2) ? bp::VERTICAL : bp::HORIZONTAL;
    typedef bp::polygon_90_set_data<T> Set;
    Set S(o), C(o);
    std::vector<int> cnt(g.W * g.H, 0);
    std::string s;
    u64 h = 7;
    std::vector<bp::rectangle_data<T> > rv;
    for (int j = 0; j < k; ++j) {
      unsigned t = d.take(R);
      bool hole = t >= rs.size();
      const R4& r = rs[t % rs.size()];
      S.insert(mkRect(g, r.x0, r.y0, r.x1, r.y1), hole);
      rv.push_back(mkRect(g, r.x0, r.y0, r.x1, r.y1));
      for (int y = r.y0; y < r.y1; ++y)
        for (int x = r.x0; x < r.x1; ++x) cnt[y * g.W + x] += hole ? -1 : 1;
      if (c.verbose) s += (hole ? "-" : "+") + showRect(rv.back()) + " ";
    }
    if (c.verbose) c.input(s + (o == bp::VERTICAL ? "V" : "H"));
    Mask m1 = 0, m2 = 0, mx = 0;
    for (int b = 0; b < g.W * g.H; ++b) {
      if (cnt[b] > 0) m1 |= Mask(1) << b;
      if (cnt[b] > 1) m2 |= Mask(1) << b;
      if (cnt[b] & 1) mx |= Mask(1) << b;
      h = mc::mix(h, cnt[b]);
    }
    {
      Set A(S);
      A.self_intersect();
      expect(g, readSet(g, A, c, "self_intersect"), m2, c, "self_intersect", "member self_intersect");
      queries(g, A, m2, c, "self_intersect");
      build(C, g, m2, F_CELLS);
      if (!(A == C)) c.fail("self_intersect", "result of self_intersect is not equal to the set of the same region");
      if (holes) {
      } else {
        Set B(S);
        bp::self_intersect(B);
        expect(g, readSet(g, B, c, "self_intersect"), m2, c, "self_intersect", "free self_intersect");
        std::vector<bp::rectangle_data<T> > v(rv);
        bp::self_intersect(v);
        expect(g, readSet(g, v, c, "self_intersect"), m2, c, "self_intersect", "self_intersect(vector<rectangle>)");
        Set X(S), Y(S);
        X.self_xor();
        expect(g, readSet(g, X, c, "self_xor"), mx, c, "self_xor", "member self_xor");
        queries(g, X, mx, c, "self_xor");
        bp::self_xor(Y);
        expect(g, readSet(g, Y, c, "self_xor"), mx, c, "self_xor", "free self_xor");
        v = rv;
        bp::self_xor(v);
        expect(g, readSet(g, v, c, "self_xor"), mx, c, "self_xor", "self_xor(vector<rectangle>)");
        c.step(4);
        queries(g, rv, m1, c, "vector<rectangle>");
      }
    }
    {
      Set Q(S);
      queries(g, Q, m1, c, "set");
      bp::rectangle_data<T> ex;
      Set Q2(S), Q3(S);
      if (Q2.empty() != (m1 == 0)) c.fail("empty", "member empty()");
      T o4[4];
      if (Q3.extents(ex) != extentsOf(g, m1, o4)) c.fail("extents", "member extents()");
      if (m1 && !(bp::xl(ex) == o4[0] && bp::xh(ex) == o4[1] && bp::yl(ex) == o4[2] && bp::yh(ex) == o4[3])) c.fail("extents", "member extents " + showRect(ex));
      c.step(4);
    }
    c.state(h);
    c.nontrivial(mc::mix(h, o == bp::VERTICAL));
  });
}

template <class T>
void equality(mc::Engine& e, const std::string& nm, const Grid<T>& g) {
  u64 n = u64(1) << (g.W * g.H);
  static const int fs[] = {F_CELLS, F_RUNS, F_PWH, F_HOLECELLS};
  e.add(nm, n * n * 4 * 4 * 4, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    bp::orientation_2d o1 = d.take(2) ? bp::VERTICAL : bp::HORIZONTAL, o2 = d.take(2) ? bp::VERTICAL : bp::HORIZONTAL;
    int f1 = fs[d.take(4)], f2 = fs[d.take(4)];
    Mask a = d.take(n), b = d.take(n);
    if (c.verbose) c.input("A=" + show(a, g.W, g.H) + " form " + formName(f1) + " B=" + show(b, g.W, g.H) + " form " + formName(f2) + (o1 == bp::VERTICAL ? " V" : " H") + (o2 == bp::VERTICAL ? "V" : "H"));
    bp::polygon_90_set_data<T> A(o1), B(o2);
    build(A, g, a, f1);
    build(B, g, b, f2);
    bool want = a == b;
    if (bp::equivalence(A, B) != want) c.fail("equivalence", "equivalence() of sets");
    if ((A == B) != want) c.fail("equality", "operator==");
    if ((A != B) == want) c.fail("equality", "operator!=");
    if ((B == A) != want) c.fail("equality", "operator== swapped");
    c.step(4);
    c.state(mc::mix(hashMask(1, a), b));
    if (a || b) c.nontrivial(mc::mix(mc::mix(hashMask(1, a), b), f1 * 64 + f2 * 4 + (o1 == bp::VERTICAL) * 2 + (o2 == bp::VERTICAL)));
  });
}
// equivalence between different kinds of objects
template <class T>
void equivKinds(mc::Engine& e, const std::string& nm, const Grid<T>& g) {
  u64 n = u64(1) << (g.W * g.H);
  e.add(nm, n * n, [=](u64 i, mc::Case& c) {
    Mask a = i % n, b = i / n;
    if (c.verbose) c.input("A=" + show(a, g.W, g.H) + " B=" + show(b, g.W, g.H));
    bool want = a == b;
    bp::polygon_90_set_data<T> A, B(bp::VERTICAL);
    build(A, g, a, F_CELLS);
    build(B, g, b, F_RUNS);
    std::vector<bp::rectangle_data<T> > rv;
    bp::get_rectangles(rv, A, bp::HORIZONTAL);
    std::vector<bp::polygon_90_with_holes_data<T> > hv;
    B.get(hv);
    std::list<bp::polygon_90_data<T> > pl;
    A.get(pl);
    if (bp::equivalence(rv, B) != want) c.fail("equivalence", "vector<rectangle> vs set");
    if (bp::equivalence(A, hv) != want) c.fail("equivalence", "set vs vector<polygon_90_with_holes>");
    if (bp::equivalence(rv, hv) != want) c.fail("equivalence", "vector<rectangle> vs vector<polygon_90_with_holes>");
    if (bp::equivalence(pl, B) != want) c.fail("equivalence", "list<polygon_90> vs set");
    queries(g, hv, b, c, "vector<polygon_90_with_holes>");
    queries(g, pl, a, c, "list<polygon_90>");
    c.step(4);
    if (hv.size() == 1 && rv.size() == 1) {
      if (bp::equivalence(hv[0], rv[0]) != want) c.fail("equivalence", "polygon_90_with_holes vs rectangle");
      if (bp::equivalence(pl.front(), hv[0]) != want) c.fail("equivalence", "polygon_90 vs polygon_90_with_holes");
      c.step(2);
    }
    c.state(mc::mix(hashMask(2, a), b));
    c.nontrivial(mc::mix(hashMask(2, a), b));
  });
}

// components of a that share at least a point with b
Mask touching(Mask a, Mask b, int W, int H) {
  int n;
  std::vector<int> comp = components(a, W, H, &n);
  Mask near = 0;  // cells of the plane whose closed cell touches b
  for (int r = 0; r < H; ++r)
    for (int q = 0; q < W; ++q)
      for (int dr = -1; dr <= 1; ++dr)
        for (int dq = -1; dq <= 1; ++dq) {
          int y = r + dr, x = q + dq;
          if (x >= 0 && y >= 0 && x < W && y < H && ((b >> (y * W + x)) & 1)) near |= Mask(1) << (r * W + q);
        }
  Mask out = 0;
  for (int k = 0; k < n; ++k) {
    Mask m = 0;
    for (int i = 0; i < W * H; ++i)
      if (comp[i] == k) m |= Mask(1) << i;
    if (m & near) out |= m;
  }
  return out;
}
template <class T>
void interact(mc::Engine& e, const std::string& nm, const Grid<T>& g, bool frees, std::vector<Mask> second) {
  u64 n = u64(1) << (g.W * g.H), nb = second.empty() ? n : second.size();
  e.add(nm, n * nb, [=](u64 i, mc::Case& c) {
    Mask a = i % n, b = second.empty() ? i / n : second[i / n];
    unsigned oo = mc::mix(5, i) & 3;
    bp::orientation_2d o1 = oo & 1 ? bp::VERTICAL : bp::HORIZONTAL, o2 = oo & 2 ? bp::VERTICAL : bp::HORIZONTAL;
    if (c.verbose) c.input("A=" + show(a, g.W, g.H) + " B=" + show(b, g.W, g.H) + (oo & 1 ? " V" : " H") + (oo & 2 ? "V" : "H"));
    typedef bp::polygon_90_set_data<T> Set;
    Set A(o1), B(o2), W(o1);
    build(A, g, a, F_CELLS);
    build(B, g, b, F_RUNS);
    Mask want = touching(a, b, g.W, g.H);
    build(W, g, want, F_CELLS);
    Set A1(A);
    A1.interact(B);
    if (!(A1 == W)) c.fail("interact", "member interact: result not equal to the expected region " + show(want, g.W, g.H));
    expect(g, readSet(g, A1, c, "interact"), want, c, "interact", "member interact");
    c.step(2);
    if (frees) {
      Set A2(A);
      bp::interact(A2, B);
      expect(g, readSet(g, A2, c, "interact"), want, c, "interact", "free interact");
      std::vector<bp::polygon_90_with_holes_data<T> > pv;
      A.get(pv);
      std::vector<bp::rectangle_data<T> > rv;
      bp::get_rectangles(rv, B);
      bp::interact(pv, rv);
      expect(g, readSet(g, pv, c, "interact"), want, c, "interact", "interact(polygons, rectangles)");
      expect(g, readSet(g, B, c, "interact"), b, c, "interact", "second operand of interact");
      c.step(3);
    }
    c.state(mc::mix(hashMask(3, a), b));
    if (a && b) c.nontrivial(mc::mix(hashMask(3, a), b));
  });
}

template <class T>
void keepFam(mc::Engine& e, const std::string& nm, const Grid<T>& g, std::vector<unsigned> len, std::vector<unsigned> areas) {
  u64 n = u64(1) << (g.W * g.H), L = len.size(), A = areas.size();
  e.add(nm, n * L * L * L * L * A * A, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    unsigned w0 = len[d.take(L)], w1 = len[d.take(L)], h0 = len[d.take(L)], h1 = len[d.take(L)], a0 = areas[d.take(A)], a1 = areas[d.take(A)];
    Mask m = d.v;
    if (c.verbose) c.input("region=" + show(m, g.W, g.H) + " emb=" + g.name + " area " + str(a0) + ".." + str(a1) + " width " + str(w0) + ".." + str(w1) + " height " + str(h0) + ".." + str(h1));
    int nc;
    std::vector<int> comp = components(m, g.W, g.H, &nc);
    Mask want = 0;
    for (int k = 0; k < nc; ++k) {
      Mask q = 0;
      for (int b = 0; b < g.W * g.H; ++b)
        if (comp[b] == k) q |= Mask(1) << b;
      T o[4];
      extentsOf(g, q, o);
      unsigned w = unsigned(o[1] - o[0]), h = unsigned(o[3] - o[2]), ar = unsigned(areaOf(g, q));
      if (w > w0 && w <= w1 && h > h0 && h <= h1 && ar >= a0 && ar <= a1) want |= q;
    }
    bp::polygon_90_set_data<T> S(mc::mix(9, i) & 1 ? bp::VERTICAL : bp::HORIZONTAL);
    build(S, g, m, F_CELLS);
    bp::keep(S, a0, a1, w0, w1, h0, h1);
    expect(g, readSet(g, S, c, "keep"), want, c, "keep", "keep");
    c.step();
    c.state(mc::mix(hashMask(4, m), i % (L * L * L * L * A * A)));
    if (m) c.nontrivial(mc::mix(hashMask(4, m), i % (L * L * L * L * A * A)));
  });
}
}  // namespace

MC_REGISTER(e) {
  bool th = e.thorough();
  multiset(e, "rects3x3/k3/int", grid<int>(3, 3, SKEW), 3, false);
  multiset(e, "signed3x2/k3/int", grid<int>(3, 2, NEG), 3, true);
  multiset(e, "signed2x2/k4/llong", grid<long long>(2, 2, HUGE_), 4, true);
  // one axis spans all of int; the whole square would have an area that long long cannot hold
  multiset(e, "rects2x2/k3/int-extremes-x", gridOf<int>({-2147483647 - 1, 0, 2147483647}, {-2000000000, -5, 2000}), 3, false);
  multiset(e, "rects2x2/k3/int-extremes-y", gridOf<int>({0, 7, 2147483000}, {-2147483647 - 1, -5, 2147483647}), 3, false);
  equality(e, "equality3x2/int", grid<int>(3, 2, SKEW));
  equality(e, "equality2x3/llong", grid<long long>(2, 3, HUGE_));
  equivKinds(e, "equiv3x3/int", grid<int>(3, 3, SKEW));
  interact(e, "interact3x3/int", grid<int>(3, 3, SKEW), true, {});
  {
    Grid<int> g = grid<int>(4, 3, NEG);
    std::vector<Mask> s;
    for (int b = 0; b < 12; ++b) s.push_back(Mask(1) << b);
    for (int b = 0; b < 12; ++b)
      for (int b2 = b + 1; b2 < 12; ++b2) s.push_back((Mask(1) << b) | (Mask(1) << b2));
    interact(e, "interact4x3/int/pairs", g, false, s);
  }
  {
    Grid<int> g = grid<int>(4, 4, UNIT);
    std::vector<Mask> s;
    for (int b = 0; b < 16; ++b) s.push_back(Mask(1) << b);
    interact(e, "interact4x4/int/cells", g, false, s);
  }
  keepFam(e, "keep3x3/int", gridOf<int>({0, 1, 3, 4}, {-1, 0, 2, 5}, "mixed"), {0, 1, 2, 3, 4}, {0, 2, 4, 100});
  keepFam(e, "keep4x3/int", grid<int>(4, 3, UNIT), {0, 2, 4}, {0, 3, 100});
  if (th) {
    multiset(e, "rects3x3/k4/int", grid<int>(3, 3, SKEW), 4, false);
    multiset(e, "signed3x3/k3/int", grid<int>(3, 3, SKEW), 3, true);
    equality(e, "equality3x3/int", grid<int>(3, 3, SKEW));
    interact(e, "interact4x3/int/all", grid<int>(4, 3, NEG), false, {});
    keepFam(e, "keep4x3/int/fine", grid<int>(4, 3, UNIT), {0, 1, 2, 3, 4}, {0, 2, 4, 100});
  }
}
