// C01, operand kinds: every pair of operand types, expression and self-assignment.
#include "m90.hpp"
using namespace m90;
using namespace boost::polygon::operators;
namespace {
typedef int T;
typedef bp::rectangle_data<T> Rect;
typedef bp::polygon_90_data<T> P90;
typedef bp::polygon_90_with_holes_data<T> PH90;
typedef bp::polygon_90_set_data<T> Set;

enum Kind { K_RECT, K_P90, K_PH90, K_VRECT, K_LPH90, K_VP90, K_SETH, K_SETV, K_N };
const char* kname[] = {"rectangle", "polygon_90", "polygon_90_wh", "vector<rectangle>", "list<polygon_90_wh>", "vector<polygon_90>", "set(H)", "set(V)"};

struct Ops {
  Rect rect;
  P90 p90;
  PH90 ph90;
  std::vector<Rect> vrect;
  std::list<PH90> lph90;
  std::vector<P90> vp90;
  Set sh, sv;
  bool ok[K_N];
  Ops() : sh(bp::HORIZONTAL), sv(bp::VERTICAL) {}
};

void make(Ops& o, const Grid<T>& g, Mask m) {
  for (int k = 0; k < K_N; ++k) o.ok[k] = true;
  // bounding box full?
  int x0 = 99, y0 = 99, x1 = -1, y1 = -1;
  for (int r = 0; r < g.H; ++r)
    for (int c = 0; c < g.W; ++c)
      if (g.has(m, c, r)) {
        x0 = std::min(x0, c);
        x1 = std::max(x1, c + 1);
        y0 = std::min(y0, r);
        y1 = std::max(y1, r + 1);
      }
  o.ok[K_RECT] = m && g.rect(x0, y0, x1, y1) == m;
  if (o.ok[K_RECT]) o.rect = mkRect(g, x0, y0, x1, y1);
  auto ps = polygonsOf(m, g.W, g.H);
  bool holes = false;
  for (auto& p : ps) {
    PH90 q;
    auto v = mapPts(g, p.shell);
    bp::set_points(q, v.begin(), v.end());
    std::vector<P90> hs;
    for (auto& h : p.holes) {
      auto hv = mapPts(g, h);
      P90 hp;
      bp::set_points(hp, hv.begin(), hv.end());
      hs.push_back(hp);
    }
    holes = holes || !hs.empty();
    bp::set_holes(q, hs.begin(), hs.end());
    o.lph90.push_back(q);
    P90 s;
    bp::set_points(s, v.begin(), v.end());
    o.vp90.push_back(s);
  }
  o.ok[K_P90] = ps.size() == 1 && !holes;
  o.ok[K_PH90] = ps.size() == 1;
  o.ok[K_VP90] = !holes;
  if (o.ok[K_P90]) o.p90 = o.vp90[0];
  if (o.ok[K_PH90]) o.ph90 = o.lph90.front();
  for (int r = 0; r < g.H; ++r)
    for (int c = 0; c < g.W; ++c)
      if (g.has(m, c, r)) o.vrect.push_back(mkRect(g, c, r, c + 1, r + 1));
  if (g.has(m, 0, 0)) o.vrect.push_back(mkRect(g, 0, 0, 1, 1));  // repeated piece
  build(o.sh, g, m, F_RUNS);
  build(o.sv, g, m, F_PWH);
}

template <class A, class B>
void ops4(const A& a, const B& b, const Grid<T>& g, Mask ma, Mask mb, mc::Case& c, const char* ka, const char* kb) {
  for (int op = 0; op < 4; ++op) {
    Set R;
    switch (op) {
      case 0: R = a + b; break;
      case 1: R = a * b; break;
      case 2: R = a - b; break;
      default: R = a ^ b; break;
    }
    expect(g, readSet(g, R, c, "expr"), opMask(op, ma, mb), c, "wrong_region",
           std::string(ka) + " " + opName(op) + " " + kb + " B=" + show(mb, g.W, g.H));
    c.step();
  }
  // the | and & spellings, and assign() of a view into a container
  std::vector<Rect> vr;
  bp::assign(vr, a | b);
  expect(g, readRects(g, vr, c, "assign"), ma | mb, c, "wrong_region", std::string(ka) + " | " + kb);
  std::list<PH90> lp;
  bp::assign(lp, a & b);
  std::vector<int> cnt(g.W * g.H, 0);
  for (auto& p : lp) {
    addLoop(g, points<T>(p), cnt, c);
    for (auto h = bp::begin_holes(p); h != bp::end_holes(p); ++h) addLoop(g, points<T>(*h), cnt, c);
  }
  expect(g, requireMask(g, cnt, c, "polys of a&b"), ma & mb, c, "wrong_region", std::string(ka) + " & " + kb);
  c.step(2);
}

template <class A, class B>
void selfOps(const A& a, const B& b, const Grid<T>& g, Mask ma, Mask mb, mc::Case& c, const char* ka, const char* kb) {
  for (int op = 0; op < 6; ++op) {
    A x(a);
    switch (op) {
      case 0: x += b; break;
      case 1: x *= b; break;
      case 2: x -= b; break;
      case 3: x ^= b; break;
      case 4: x |= b; break;
      case 5: x &= b; break;
    }
    int o = op == 4 ? 0 : op == 5 ? 1 : op;
    expect(g, readSet(g, x, c, "self-assign"), opMask(o, ma, mb), c, "wrong_region_self",
           std::string(ka) + " " + opName(o) + "= " + kb + " B=" + show(mb, g.W, g.H));
    c.step();
  }
}

template <class A>
void withB(const A& a, const Ops& o, const Grid<T>& g, Mask ma, Mask mb, mc::Case& c, const char* ka, int part) {
  if (part == 0) {
    if (o.ok[K_RECT]) ops4(a, o.rect, g, ma, mb, c, ka, kname[K_RECT]);
    if (o.ok[K_P90]) ops4(a, o.p90, g, ma, mb, c, ka, kname[K_P90]);
    if (o.ok[K_PH90]) ops4(a, o.ph90, g, ma, mb, c, ka, kname[K_PH90]);
    ops4(a, o.vrect, g, ma, mb, c, ka, kname[K_VRECT]);
  } else {
    ops4(a, o.lph90, g, ma, mb, c, ka, kname[K_LPH90]);
    if (o.ok[K_VP90]) ops4(a, o.vp90, g, ma, mb, c, ka, kname[K_VP90]);
    ops4(a, o.sh, g, ma, mb, c, ka, kname[K_SETH]);
    ops4(a, o.sv, g, ma, mb, c, ka, kname[K_SETV]);
  }
}
template <class A>
void selfB(const A& a, const Ops& o, const Grid<T>& g, Mask ma, Mask mb, mc::Case& c, const char* ka) {
  if (o.ok[K_RECT]) selfOps(a, o.rect, g, ma, mb, c, ka, kname[K_RECT]);
  selfOps(a, o.vrect, g, ma, mb, c, ka, kname[K_VRECT]);
  selfOps(a, o.lph90, g, ma, mb, c, ka, kname[K_LPH90]);
  selfOps(a, o.sh, g, ma, mb, c, ka, kname[K_SETH]);
  selfOps(a, o.sv, g, ma, mb, c, ka, kname[K_SETV]);
}
}  // namespace

MC_REGISTER(e) {
  struct Fam { int W, H, emb; };
  std::vector<Fam> fs = {{2, 2, SKEW}, {3, 2, NEG}};
  if (e.thorough()) fs.push_back({3, 3, HUGE_});
  for (auto f : fs) {
    Grid<T> g = grid<T>(f.W, f.H, f.emb);
    u64 n = u64(1) << (f.W * f.H);
    e.add("operand_kinds/" + str(f.W) + "x" + str(f.H) + "/" + g.name, n * n, [=](u64 i, mc::Case& c) {
      Mask ma = i % n, mb = i / n;
      if (c.verbose) c.input("A=" + show(ma, f.W, f.H) + " B=" + show(mb, f.W, f.H) + " emb=" + g.name);
      Ops a, b;
      make(a, g, ma);
      make(b, g, mb);
      for (int part = 0; part < 2; ++part) {
        if (a.ok[K_RECT]) withB(a.rect, b, g, ma, mb, c, kname[K_RECT], part);
        if (a.ok[K_PH90]) withB(a.ph90, b, g, ma, mb, c, kname[K_PH90], part);
        withB(a.vrect, b, g, ma, mb, c, kname[K_VRECT], part);
        withB(a.lph90, b, g, ma, mb, c, kname[K_LPH90], part);
        withB(a.sh, b, g, ma, mb, c, kname[K_SETH], part);
        withB(a.sv, b, g, ma, mb, c, kname[K_SETV], part);
      }
      selfB(a.vrect, b, g, ma, mb, c, kname[K_VRECT]);
      selfB(a.lph90, b, g, ma, mb, c, kname[K_LPH90]);
      selfB(a.sh, b, g, ma, mb, c, kname[K_SETH]);
      selfB(a.sv, b, g, ma, mb, c, kname[K_SETV]);
      // operands still denote their regions
      expect(g, readSet(g, a.sh, c, "operand"), ma, c, "operand_changed", "A(H)");
      expect(g, readSet(g, b.sv, c, "operand"), mb, c, "operand_changed", "B(V)");
      c.state(hashMask(ma, mb));
      if (ma && mb) c.nontrivial(hashMask(777 + ma, mb));
    });
  }
}
