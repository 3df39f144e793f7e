// C03: get_max_rectangles returns exactly the maximal contained rectangles.
#include "m90.hpp"
using namespace m90;
using namespace boost::polygon::operators;

namespace {
struct IR {
  int x0, y0, x1, y1;
  bool operator<(const IR& o) const { return std::tie(x0, y0, x1, y1) < std::tie(o.x0, o.y0, o.x1, o.y1); }
  bool operator==(const IR& o) const { return std::tie(x0, y0, x1, y1) == std::tie(o.x0, o.y0, o.x1, o.y1); }
};
std::vector<IR> maximal(Mask m, int W, int H) {
  // precomputed masks of all grid rectangles
  std::vector<IR> out;
  auto rectMask = [&](int x0, int y0, int x1, int y1) {
    Mask row = ((Mask(1) << (x1 - x0)) - 1) << x0, r = 0;
    for (int y = y0; y < y1; ++y) r |= row << (y * W);
    return r;
  };
  auto in = [&](int x0, int y0, int x1, int y1) {
    if (x0 < 0 || y0 < 0 || x1 > W || y1 > H) return false;
    Mask r = rectMask(x0, y0, x1, y1);
    return (m & r) == r;
  };
  for (int x0 = 0; x0 < W; ++x0)
    for (int y0 = 0; y0 < H; ++y0)
      for (int x1 = x0 + 1; x1 <= W; ++x1)
        for (int y1 = y0 + 1; y1 <= H; ++y1) {
          if (!in(x0, y0, x1, y1)) break;
          if (in(x0 - 1, y0, x1, y1) || in(x0, y0 - 1, x1, y1) || in(x0, y0, x1 + 1, y1) || in(x0, y0, x1, y1 + 1)) continue;
          out.push_back(IR{x0, y0, x1, y1});
        }
  std::sort(out.begin(), out.end());
  return out;
}
template <class T, class Src>
void check(const Grid<T>& g, const Src& s, const std::vector<IR>& want, mc::Case& c, const char* what) {
  std::vector<bp::rectangle_data<T> > got;
  bp::get_max_rectangles(got, s);
  std::vector<IR> v;
  for (auto& r : got) {
    IR q = {g.xi(bp::xl(r)), g.yi(bp::yl(r)), g.xi(bp::xh(r)), g.yi(bp::yh(r))};
    v.push_back(q);
  }
  std::sort(v.begin(), v.end());
  c.step();
  if (v == want) return;
  for (size_t i = 1; i < v.size(); ++i)
    if (v[i] == v[i - 1]) c.fail("duplicate", std::string(what) + ": a rectangle is reported twice");
  std::string t;
  for (auto& r : got) t += showRect(r) + " ";
  c.fail(v.size() < want.size() ? "missing" : "not_maximal", std::string(what) + ": got " + t + " want " + str(want.size()) + " rectangles");
}
template <class T>
void add(mc::Engine& e, const std::string& nm, const Grid<T>& g, std::vector<int> forms, bool containers) {
  u64 n = u64(1) << (g.W * g.H);
  e.add(nm, n * 2 * forms.size(), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    bool vert = d.take(2);
    int f = forms[d.take(unsigned(forms.size()))];
    Mask m = d.v;
    if (c.verbose) c.input("region=" + show(m, g.W, g.H) + " form=" + formName(f) + " orient=" + (vert ? "V" : "H") + " emb=" + g.name);
    std::vector<IR> want = maximal(m, g.W, g.H);
    bp::polygon_90_set_data<T> S(vert ? bp::VERTICAL : bp::HORIZONTAL);
    build(S, g, m, f);
    check(g, S, want, c, "set");
    S.clean();
    check(g, S, want, c, "cleaned set");
    if (containers && !vert) {
      std::vector<bp::rectangle_data<T> > rv;
      for (int r = 0; r < g.H; ++r)
        for (int q = 0; q < g.W; ++q)
          if (g.has(m, q, r)) rv.push_back(mkRect(g, q, r, q + 1, r + 1));
      check(g, rv, want, c, "vector<rectangle>");
      std::vector<bp::polygon_90_with_holes_data<T> > ps;
      S.get(ps);
      check(g, ps, want, c, "vector<polygon_90_with_holes>");
      check(g, S + bp::polygon_90_set_data<T>(bp::VERTICAL), want, c, "expression");
    }
    c.state(hashMask(g.W * 16 + g.H, m));
    if (want.size() > 1) c.nontrivial(mc::mix(hashMask(g.W * 16 + g.H, m), vert));
  });
}
}  // namespace

MC_REGISTER(e) {
  add(e, "all3x3/int/skew", grid<int>(3, 3, SKEW), {F_CELLS, F_RUNS, F_PWH, F_PWH_CW, F_HOLECELLS, F_P90, F_P45}, true);
  add(e, "all4x4/int/huge", grid<int>(4, 4, HUGE_), {F_CELLS, F_PWH}, true);
  add(e, "all4x4/llong/neg", grid<long long>(4, 4, NEG), {F_RUNS}, false);
  add(e, "all4x3/double/skew", grid<double>(4, 3, SKEW), {F_CELLS}, false);
  add(e, "all5x4/int/unit", grid<int>(5, 4, UNIT), {F_CELLS}, false);
  add(e, "all4x5/int/skew", grid<int>(4, 5, SKEW), {F_CELLS}, false);
  if (e.thorough()) {
    add(e, "all5x5/int/unit", grid<int>(5, 5, UNIT), {F_CELLS}, false);
    add(e, "all6x4/int/unit", grid<int>(6, 4, UNIT), {F_CELLS}, false);
    add(e, "all4x6/int/unit", grid<int>(4, 6, UNIT), {F_CELLS}, false);
  }
}
