// C02: exact decomposition of rectilinear regions into every output form.
#include "m90out.hpp"
using namespace m90;

namespace {
// each rectangle cannot be extended sideways along the slicing orientation
template <class T>
void checkSlices(const Grid<T>& g, const std::vector<bp::rectangle_data<T> >& rs, Mask m, bp::orientation_2d o, mc::Case& c) {
  for (auto& r : rs) {
    int x0 = g.xi(bp::xl(r)), x1 = g.xi(bp::xh(r)), y0 = g.yi(bp::yl(r)), y1 = g.yi(bp::yh(r));
    bool bad = false;
    if (o == bp::HORIZONTAL) {
      for (int y = y0; y < y1; ++y) bad = bad || g.has(m, x0 - 1, y) || g.has(m, x1, y);
    } else {
      for (int x = x0; x < x1; ++x) bad = bad || g.has(m, x, y0 - 1) || g.has(m, x, y1);
    }
    if (bad) c.fail("slicing", "rectangle " + showRect(r) + " is cut across the slicing orientation");
  }
}

template <class T>
void one(const Grid<T>& g, Mask m, bp::orientation_2d o, int form, int deep, mc::Case& c) {
  typedef bp::polygon_90_set_data<T> Set;
  typedef bp::rectangle_data<T> Rect;
  Set S(o);
  build(S, g, m, form);
  {
    std::vector<Rect> r1, r2, r3, r4;
    bp::get_rectangles(r1, S);
    expect(g, readRects(g, r1, c, "get_rectangles"), m, c, "wrong_cover", "get_rectangles");
    bp::get_rectangles(r2, S, bp::HORIZONTAL);
    expect(g, readRects(g, r2, c, "get_rectangles(H)"), m, c, "wrong_cover", "get_rectangles(H)");
    checkSlices(g, r2, m, bp::HORIZONTAL, c);
    bp::get_rectangles(r3, S, bp::VERTICAL);
    expect(g, readRects(g, r3, c, "get_rectangles(V)"), m, c, "wrong_cover", "get_rectangles(V)");
    checkSlices(g, r3, m, bp::VERTICAL, c);
    S.get(r4);
    expect(g, readRects(g, r4, c, "get<rect>"), m, c, "wrong_cover", "get<rect>");
    c.step(4);
  }
  {
    std::vector<bp::polygon_90_with_holes_data<T> > p1;
    S.get(p1);
    checkPolysWithHoles(g, p1, m, c, "polygon_90_with_holes", true);
    int nc;
    components(m, g.W, g.H, &nc);
    if (int(p1.size()) > nc) c.fail("split", "more polygons with holes than connected components");
    std::list<bp::polygon_90_data<T> > p2;
    S.get(p2);
    checkPolys(g, p2, m, c, "polygon_90");
    Set back;
    back.insert(p1.begin(), p1.end());
    expect(g, readSet(g, back, c, "reinsert"), m, c, "reinsert", "re-inserted polygons with holes");
    Set back2(o);
    back2.insert(p2.begin(), p2.end());
    expect(g, readSet(g, back2, c, "reinsert"), m, c, "reinsert", "re-inserted polygons");
    c.step(4);
  }
  if (deep) {
    std::vector<bp::polygon_45_with_holes_data<T> > p3;
    S.get(p3);
    checkPolysWithHoles(g, p3, m, c, "polygon_45_with_holes", true);
    std::vector<bp::polygon_with_holes_data<T> > p4;
    S.get(p4);
    checkPolysWithHoles(g, p4, m, c, "polygon_with_holes", true);
    std::vector<bp::polygon_data<T> > p5;
    S.get(p5);
    checkPolys(g, p5, m, c, "polygon");
    std::vector<bp::polygon_45_data<T> > p6;
    S.get(p6);
    checkPolys(g, p6, m, c, "polygon_45");
    std::vector<bp::polygon_90_data<T> > p7;
    S.get_polygons(p7);
    checkPolys(g, p7, m, c, "get_polygons");
    std::vector<bp::polygon_90_with_holes_data<T> > p8;
    bp::assign(p8, S);
    checkPolysWithHoles(g, p8, m, c, "assign(vector<polygon_90_wh>)", true);
    std::vector<bp::polygon_90_data<T> > p9;
    bp::assign(p9, S);
    checkPolys(g, p9, m, c, "assign(vector<polygon_90>)");
    c.step(7);
  }
  c.state(hashMask(g.W * 16 + g.H, m));
  if (m) c.nontrivial(mc::mix(hashMask(g.W * 16 + g.H, m), o == bp::VERTICAL));
}

template <class T>
void add(mc::Engine& e, const std::string& nm, const Grid<T>& g, std::vector<int> forms, int deep) {
  u64 n = u64(1) << (g.W * g.H);
  e.add(nm, n * 2 * forms.size(), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    bp::orientation_2d o = d.take(2) ? bp::VERTICAL : bp::HORIZONTAL;
    int f = forms[d.take(unsigned(forms.size()))];
    Mask m = d.v;
    if (c.verbose)
      c.input("region=" + show(m, g.W, g.H) + " form=" + formName(f) + " orient=" + (o == bp::VERTICAL ? "V" : "H") + " emb=" + g.name);
    one(g, m, o, f, deep, c);
  });
}

// a w x h frame (ring) with all 4x3 fillings inside: holes with islands
template <class T>
void addFramed(mc::Engine& e, int W, int H, int emb, int deep) {
  Grid<T> g = grid<T>(W + 2, H + 2, emb);
  u64 n = u64(1) << (W * H);
  e.add("framed" + str(W) + "x" + str(H) + "/" + g.name, n * 2, [=](u64 i, mc::Case& c) {
    bp::orientation_2d o = i & 1 ? bp::VERTICAL : bp::HORIZONTAL;
    Mask in = i >> 1, m = g.full() & ~g.rect(1, 1, W + 1, H + 1);
    for (int r = 0; r < H; ++r)
      for (int q = 0; q < W; ++q)
        if ((in >> (r * W + q)) & 1) m |= g.rect(q + 1, r + 1, q + 2, r + 2);
    if (c.verbose) c.input("region=" + show(m, g.W, g.H) + " orient=" + (o == bp::VERTICAL ? "V" : "H") + " emb=" + g.name);
    one(g, m, o, F_CELLS, deep, c);
  });
}

// get(container, vthreshold): the region in pieces of at most vthreshold vertices
template <class P, class T>
void slicedOne(const Grid<T>& g, const bp::polygon_90_set_data<T>& S, Mask m, int t, mc::Case& c, const char* what) {
  std::vector<P> q;
  S.get(q, std::size_t(t));
  checkPolys(g, q, m, c, what);
  for (auto& p : q) {
    std::size_t n = 0;
    for (auto i = p.begin(); i != p.end(); ++i) ++n;
    if (n > std::size_t(t)) c.fail("vertices", std::string(what) + ": a piece has " + str(int(n)) + " vertices, the limit is " + str(t));
  }
  c.step();
}
template <class T>
void addSliced(mc::Engine& e, const Grid<T>& g, std::vector<int> ts, int holes) {
  u64 n = u64(1) << (g.W * g.H);
  e.add("vthreshold" + str(g.W) + "x" + str(g.H) + "/" + g.name, n * 2 * ts.size(), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    bp::orientation_2d o = d.take(2) ? bp::VERTICAL : bp::HORIZONTAL;
    int t = ts[d.take(unsigned(ts.size()))];
    Mask m = d.v;
    if (c.verbose)
      c.input("region=" + show(m, g.W, g.H) + " vthreshold=" + str(t) + " orient=" + (o == bp::VERTICAL ? "V" : "H") + " emb=" + g.name);
    bp::polygon_90_set_data<T> S(o);
    build(S, g, m, F_CELLS);
    slicedOne<bp::polygon_90_data<T> >(g, S, m, t, c, "get(polygon_90, vthreshold)");
    if (holes) {
      std::vector<bp::polygon_90_with_holes_data<T> > q;
      S.get(q, std::size_t(t));
      checkPolysWithHoles(g, q, m, c, "get(polygon_90_with_holes, vthreshold)", true);
      for (auto& p : q)
        if (p.begin_holes() != p.end_holes() || std::size_t(std::distance(p.begin(), p.end())) > std::size_t(t))
          c.fail("vertices", "get(polygon_90_with_holes, vthreshold): a piece has a hole or too many vertices");
      c.step();
    }
    c.state(hashMask(g.W * 16 + g.H, m));
    if (m) c.nontrivial(mc::mix(hashMask(g.W * 16 + g.H + 256 * t, m), o == bp::VERTICAL));
  });
}
}  // namespace

MC_REGISTER(e) {
  // hole-free polygons are documented to be counterclockwise: recorded finding
  e.add("winding/holefree", 1, [](u64, mc::Case& c) {
    Grid<int> g = grid<int>(1, 1, UNIT);
    if (c.verbose) c.input("region=# output=polygon_90_data");
    bp::polygon_90_set_data<int> S;
    build(S, g, 1, F_CELLS);
    std::vector<bp::polygon_90_data<int> > q;
    S.get(q);
    checkPolys(g, q, 1, c, "polygon_90", true);
  });
  bool th = e.thorough();
  addSliced(e, grid<int>(4, 4, SKEW), {4, 5, 6, 7, 8, 9, 10, 12, 14, 20}, 1);
  addSliced(e, grid<int>(5, 4, UNIT), {4, 6, 8}, 0);
  addSliced(e, grid<int>(4, 5, NEG), {10, 6}, 0);
  if (th) {
    addSliced(e, grid<int>(5, 5, UNIT), {6, 10}, 0);
    addSliced(e, grid<long long>(3, 7, HUGE_), {4, 6, 8, 9, 10, 12, 14, 16}, 1);
  }
  add(e, "all3x3/int/skew", grid<int>(3, 3, SKEW), {F_CELLS, F_RUNS, F_PWH, F_PWH_CW, F_HOLECELLS, F_P90, F_P45}, 1);
  add(e, "all4x4/int/unit", grid<int>(4, 4, UNIT), {F_CELLS}, 1);
  add(e, "all5x3/int/huge", grid<int>(5, 3, HUGE_), {F_PWH}, 1);
  add(e, "all3x5/llong/huge", grid<long long>(3, 5, HUGE_), {F_RUNS}, th);
  addFramed<int>(e, 4, 4, NEG, 1);
  add(e, "all5x4/int/unit", grid<int>(5, 4, UNIT), {F_CELLS}, 1);
  addFramed<int>(e, 5, 4, UNIT, 0);
  if (th) {
    add(e, "all4x5/int/skew", grid<int>(4, 5, SKEW), {F_CELLS, F_PWH}, 1);
    addFramed<int>(e, 4, 5, UNIT, 1);
    add(e, "all5x5/int/unit", grid<int>(5, 5, UNIT), {F_CELLS}, 0);
    add(e, "all6x4/int/neg", grid<int>(6, 4, NEG), {F_CELLS}, 0);
  }
}
