// C01: Boolean algebra of rectilinear regions is pointwise exact.
#include "m90.hpp"
using namespace m90;
using namespace boost::polygon::operators;

template <class T>
static Grid<T> extremeGrid(int W, int H) {
  // touches both ends of the coordinate range
  T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  std::vector<T> all = {lo, T(lo + 1), T(-1), T(0), T(hi - 1), hi};
  std::vector<T> xs, ys;
  for (int i = 0; i <= W; ++i) xs.push_back(all[i * 5 / W]);
  for (int i = 0; i <= H; ++i) ys.push_back(all[i * 5 / H]);
  return gridOf(xs, ys, "extreme");
}

// all B for one A
template <class T>
static void pairCase(const Grid<T>& g, Mask a, int fa, int fb, bp::orientation_2d oa, bp::orientation_2d ob,
                     const std::vector<Mask>* bs, u64 nb, mc::Case& c) {
  bp::polygon_90_set_data<T> A(oa);
  build(A, g, a, fa);
  for (u64 k = 0; k < nb; ++k) {
    Mask b = bs ? (*bs)[k] : Mask(k);
    bp::polygon_90_set_data<T> B(ob);
    build(B, g, b, fb);
    for (int op = 0; op < 4; ++op) {
      bp::polygon_90_set_data<T> R;
      switch (op) {
        case 0: R = A + B; break;
        case 1: R = A * B; break;
        case 2: R = A - B; break;
        default: R = A ^ B; break;
      }
      Mask want = opMask(op, a, b), got = readSet(g, R, c, opName(op));
      if (got != want) {
        c.input(" B=" + show(b, g.W, g.H) + " op=" + opName(op));
        expect(g, got, want, c, "wrong_region", std::string("A") + opName(op) + "B");
      }
      c.step();
    }
    c.state(hashMask(1, b));
  }
  c.nontrivial(hashMask(100 + fa * 8 + fb, a));
}

typedef std::vector<std::pair<int, int> > FP;

template <class T>
static void addPairs(mc::Engine& e, const std::string& nm, const Grid<T>& g, FP forms, bool orients,
                     const std::vector<Mask>* bs = 0) {
  int W = g.W, H = g.H;
  u64 n = u64(1) << (W * H);
  std::vector<Mask> bv;
  if (bs) bv = *bs;
  bool useB = bs != 0;
  e.add(nm, n * forms.size() * (orients ? 4 : 1), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    auto f = forms[d.take(unsigned(forms.size()))];
    int o = orients ? d.take(4) : 0;
    Mask a = d.v;
    if (c.verbose)
      c.input("A=" + show(a, W, H) + " formA=" + formName(f.first) + " formB=" + formName(f.second) + " orients=" + str(o) + " emb=" + g.name);
    pairCase(g, a, f.first, f.second, o & 1 ? bp::VERTICAL : bp::HORIZONTAL, o & 2 ? bp::VERTICAL : bp::HORIZONTAL,
             useB ? &bv : 0, useB ? bv.size() : n, c);
  });
}

// sets built from up to 3 arbitrary (overlapping, coinciding, negative) rectangles
static void addMulti(mc::Engine& e, int W, int H, int emb, int ka, int kb) {
  typedef int T;
  Grid<T> g = grid<T>(W, H, emb);
  std::vector<std::vector<int> > rs;
  for (int x0 = 0; x0 < W; ++x0)
    for (int x1 = x0 + 1; x1 <= W; ++x1)
      for (int y0 = 0; y0 < H; ++y0)
        for (int y1 = y0 + 1; y1 <= H; ++y1) rs.push_back({x0, y0, x1, y1});
  unsigned n = rs.size();
  e.add("overlapping_rects/" + str(ka) + "+" + str(kb) + "/" + g.name, mc::ipow(n, ka + kb), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    bp::polygon_90_set_data<T> S[2];
    Mask m[2] = {0, 0};
    for (int k = 0; k < ka + kb; ++k) {
      auto& r = rs[d.take(n)];
      int w = k < ka ? 0 : 1;
      S[w].insert(mkRect(g, r[0], r[1], r[2], r[3]));
      m[w] |= g.rect(r[0], r[1], r[2], r[3]);
      if (c.verbose) c.input((w ? "B" : "A") + std::string("+=") + showRect(mkRect(g, r[0], r[1], r[2], r[3])) + " ");
    }
    for (int op = 0; op < 4; ++op) {
      bp::polygon_90_set_data<T> R(S[0]);
      switch (op) {
        case 0: R += S[1]; break;
        case 1: R *= S[1]; break;
        case 2: R -= S[1]; break;
        default: R ^= S[1]; break;
      }
      expect(g, readSet(g, R, c, "self"), opMask(op, m[0], m[1]), c, "wrong_region", std::string("A") + opName(op) + "=B");
      c.step();
    }
    c.state(hashMask(m[0], m[1]));
    c.nontrivial(hashMask(m[0] + 99, m[1]));
  });
}

MC_REGISTER(e) {
  FP all, few;
  for (int a = 0; a < F_N; ++a)
    for (int b = 0; b < F_N; ++b) all.push_back({a, b});
  FP rectForms;
  for (int a : {F_CELLS, F_RUNS, F_HOLECELLS})
    for (int b : {F_CELLS, F_RUNS, F_HOLECELLS}) rectForms.push_back({a, b});
  few = {{F_PWH, F_RUNS}, {F_CELLS, F_PWH_CW}, {F_HOLECELLS, F_P90}, {F_P45, F_HOLECELLS}};
  addPairs(e, "pairs2x2/all_forms/orients/int/skew", grid<int>(2, 2, SKEW), all, true);
  addPairs(e, "pairs2x2/all_forms/orients/int/extreme", extremeGrid<int>(2, 2), rectForms, true);
  addPairs(e, "pairs2x2/rect_forms/orients/llong/extreme", extremeGrid<long long>(2, 2), rectForms, true);
  addPairs(e, "pairs2x3/orients/double/skew", grid<double>(2, 3, SKEW), few, true);
  addPairs(e, "pairs3x2/orients/llong/huge", grid<long long>(3, 2, HUGE_), few, true);
  addPairs(e, "pairs3x3/int/unit", grid<int>(3, 3, UNIT), all, e.thorough());
  addPairs(e, "pairs3x3/orients/int/extreme", extremeGrid<int>(3, 3), FP(1, {F_RUNS, F_HOLECELLS}), true);
  addPairs(e, "pairs3x3/int/neg", grid<int>(3, 3, NEG), FP(1, {F_PWH_CW, F_P45}), false);
  if (e.thorough()) {
    addPairs(e, "pairs4x3/int/unit", grid<int>(4, 3, UNIT), FP(1, {F_PWH, F_CELLS}), false);
    addPairs(e, "pairs3x3/double/skew", grid<double>(3, 3, SKEW), few, false);
  }
  // 4x4: all A against a fixed list of structured B
  std::vector<Mask> bs;
  {
    Grid<int> g = grid<int>(4, 4, UNIT);
    Mask f = g.full();
    Mask chk = 0x5a5a, ring = f & ~g.rect(1, 1, 3, 3);
    bs = {0, f, chk, f & ~chk, ring, g.rect(1, 1, 3, 3), g.rect(0, 0, 2, 4), g.rect(0, 1, 4, 2), g.rect(1, 0, 2, 1) | g.rect(2, 3, 3, 4), 0x8421, 0x1248, g.rect(0, 0, 4, 4) & ~g.rect(1, 0, 2, 3)};
    addPairs(e, "pairs4x4xfixed/int/unit", grid<int>(4, 4, UNIT), FP(1, {F_PWH, F_RUNS}), false, &bs);
    addPairs(e, "pairs4x4xfixed/int/skew", grid<int>(4, 4, SKEW), FP(1, {F_P90, F_PWH_CW}), false, &bs);
  }
  addMulti(e, 3, 3, SKEW, 2, 1);
  addMulti(e, 2, 2, UNIT, 3, 2);
  addMulti(e, 3, 3, UNIT, 1, 2);
  if (e.thorough()) addMulti(e, 3, 3, UNIT, 2, 2);
}
