// C04: Manhattan bloat / shrink / resize / grow_and against the Minkowski definition.
#include "ras.hpp"
using namespace m90;
using namespace boost::polygon::operators;

namespace {
std::string amts(int w, int e, int s, int n) { return "(" + str(w) + "," + str(e) + "," + str(s) + "," + str(n) + ")"; }

// embeddings small enough for the raster
template <class T>
Grid<T> gr(int W, int H, int kind) {
  static const int A[3][8] = {{0, 1, 2, 3, 4, 5, 6, 7}, {0, 1, 3, 6, 7, 9, 12, 13}, {-5, -3, -2, 1, 3, 4, 7, 8}};
  static const int B[3][8] = {{0, 1, 2, 3, 4, 5, 6, 7}, {0, 2, 3, 4, 7, 8, 10, 13}, {-7, -4, -2, -1, 1, 4, 5, 7}};
  std::vector<T> xs(A[kind], A[kind] + W + 1), ys(B[kind], B[kind] + H + 1);
  static const char* nm[] = {"unit", "mixed", "signed"};
  return gridOf<T>(xs, ys, nm[kind]);
}

// all four-sided bloats and shrinks
template <class T>
void four(mc::Engine& e, const std::string& nm, const Grid<T>& g, int amax, std::vector<int> forms, Mask base = 0, bool framed = false) {
  int K = amax + 1;
  int cw = framed ? g.W - 2 : g.W, ch = framed ? g.H - 2 : g.H;
  u64 n = u64(1) << (cw * ch);
  e.add(nm + "/" + g.name, n * K * K * K * K * 2 * forms.size(), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    bool vert = d.take(2);
    int a[4];
    for (int k = 0; k < 4; ++k) a[k] = d.take(K);
    int f = forms[d.take(unsigned(forms.size()))];
    Mask m = d.v;
    if (framed) {
      Mask in = m;
      m = g.full() & ~g.rect(1, 1, g.W - 1, g.H - 1);
      for (int r = 0; r < ch; ++r)
        for (int q = 0; q < cw; ++q)
          if ((in >> (r * cw + q)) & 1) m |= g.rect(q + 1, r + 1, q + 2, r + 2);
    }
    if (c.verbose)
      c.input("region=" + show(m, g.W, g.H) + " emb=" + g.name + " amounts=" + amts(a[0], a[1], a[2], a[3]) + " orient=" + (vert ? "V" : "H") + " form=" + formName(f));
    bp::polygon_90_set_data<T> S(vert ? bp::VERTICAL : bp::HORIZONTAL);
    build(S, g, m, f);
    Ras R = rasterOf(g, m);
    Ras wantB = dilate(R, a[0], a[1], a[2], a[3]), wantS = erode(R, a[0], a[1], a[2], a[3]);
    {
      bp::polygon_90_set_data<T> B(S);
      B.bloat(a[0], a[1], a[2], a[3]);
      expectR<T>(B, wantB, c, "bloat");
    }
    {
      bp::polygon_90_set_data<T> B(S);
      B.shrink(a[0], a[1], a[2], a[3]);
      expectR<T>(B, wantS, c, "shrink");
    }
    c.state(mc::mix(hashMask(g.W * 16 + g.H, m), (a[0] * 8 + a[1]) * 64 + a[2] * 8 + a[3]));
    if (m) c.nontrivial(mc::mix(hashMask(g.W * 16 + g.H, m), (a[0] * 8 + a[1]) * 64 + a[2] * 8 + a[3]));
  });
}

Ras resizeModel(const Ras& R, int w, int e, int s, int n) {
  // per axis: net growth is dilation by [-low, high], net shrinkage is erosion; shrinking comes first
  auto hx = [&](const Ras& a) { return w + e >= 0 ? dilate(a, w, e, 0, 0) : erode(a, -w, -e, 0, 0); };
  auto vx = [&](const Ras& a) { return s + n >= 0 ? dilate(a, 0, 0, s, n) : erode(a, 0, 0, -s, -n); };
  if (w + e < 0) return vx(hx(R));
  return hx(vx(R));
}

template <class T>
void signedResize(mc::Engine& e, const std::string& nm, const Grid<T>& g, int amax) {
  int K = 2 * amax + 1;
  u64 n = u64(1) << (g.W * g.H);
  e.add(nm + "/" + g.name, n * K * K * K * K, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    int a[4];
    for (int k = 0; k < 4; ++k) a[k] = int(d.take(K)) - amax;
    Mask m = d.v;
    bool vert = mc::mix(1, i) & 1;
    if (c.verbose) c.input("region=" + show(m, g.W, g.H) + " emb=" + g.name + " resize=" + amts(a[0], a[1], a[2], a[3]) + " orient=" + (vert ? "V" : "H"));
    Ras want = resizeModel(rasterOf(g, m), a[0], a[1], a[2], a[3]);
    bp::polygon_90_set_data<T> S(vert ? bp::VERTICAL : bp::HORIZONTAL), S2(S);
    build(S, g, m, F_CELLS);
    S2 = S;
    S.resize(T(a[0]), T(a[1]), T(a[2]), T(a[3]));
    expectR<T>(S, want, c, "member resize");
    bp::resize(S2, T(a[0]), T(a[1]), T(a[2]), T(a[3]));
    expectR<T>(S2, want, c, "free resize");
    c.state(mc::mix(hashMask(g.W * 16 + g.H, m), ((a[0] * 8 + a[1]) * 64 + a[2] * 8 + a[3]) + 100000));
    if (m) c.nontrivial(mc::mix(hashMask(g.W * 16 + g.H, m), ((a[0] * 8 + a[1]) * 64 + a[2] * 8 + a[3]) + 100000));
  });
}

// every spelling of a resize agrees with the four-sided definition
template <class T>
void spellings(mc::Engine& e, const std::string& nm, const Grid<T>& g, int amax) {
  typedef bp::polygon_90_set_data<T> Set;
  u64 n = u64(1) << (g.W * g.H);
  e.add(nm + "/" + g.name, n * (amax + 1) * (amax + 1) * 2, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    bool vert = d.take(2);
    int a = d.take(amax + 1), b = d.take(amax + 1);
    Mask m = d.v;
    if (c.verbose) c.input("region=" + show(m, g.W, g.H) + " emb=" + g.name + " a=" + str(a) + " b=" + str(b) + " orient=" + (vert ? "V" : "H"));
    Set S0(vert ? bp::VERTICAL : bp::HORIZONTAL);
    build(S0, g, m, F_CELLS);
    Ras R = rasterOf(g, m);
    typedef bp::direction_2d D;
    D ds[4] = {bp::WEST, bp::EAST, bp::SOUTH, bp::NORTH};
    for (int k = 0; k < 4; ++k) {
      int z[4] = {0, 0, 0, 0};
      z[k] = a;
      Ras wb = dilate(R, z[0], z[1], z[2], z[3]), ws = erode(R, z[0], z[1], z[2], z[3]);
      Set p(S0), q(S0), r(S0), s(S0);
      p.bloat(ds[k], a);
      expectR<T>(p, wb, c, "member bloat(direction " + str(k) + ")");
      q.shrink(ds[k], a);
      expectR<T>(q, ws, c, "member shrink(direction " + str(k) + ")");
      bp::bloat(r, ds[k], a);
      expectR<T>(r, wb, c, "bloat(direction " + str(k) + ")");
      bp::shrink(s, ds[k], a);
      expectR<T>(s, ws, c, "shrink(direction " + str(k) + ")");
    }
    for (int o = 0; o < 2; ++o) {
      bp::orientation_2d ori = o ? bp::VERTICAL : bp::HORIZONTAL;
      Ras wb = o ? dilate(R, 0, 0, a, a) : dilate(R, a, a, 0, 0), ws = o ? erode(R, 0, 0, a, a) : erode(R, a, a, 0, 0);
      Ras wb2 = o ? dilate(R, 0, 0, a, b) : dilate(R, a, b, 0, 0), ws2 = o ? erode(R, 0, 0, a, b) : erode(R, a, b, 0, 0);
      Set p(S0), q(S0), r(S0), s(S0);
      bp::bloat(p, ori, a);
      expectR<T>(p, wb, c, "bloat(orientation)");
      bp::shrink(q, ori, a);
      expectR<T>(q, ws, c, "shrink(orientation)");
      bp::bloat(r, ori, a, b);
      expectR<T>(r, wb2, c, "bloat(orientation,low,high)");
      bp::shrink(s, ori, a, b);
      expectR<T>(s, ws2, c, "shrink(orientation,low,high)");
    }
    Ras wb = dilate(R, a, a, a, a), ws = erode(R, a, a, a, a);
    {
      Set p(S0), q(S0), r(S0), s(S0), t(S0), u(S0);
      bp::bloat(p, a);
      expectR<T>(p, wb, c, "bloat(amount)");
      bp::shrink(q, a);
      expectR<T>(q, ws, c, "shrink(amount)");
      bp::resize(r, T(a));
      expectR<T>(r, wb, c, "resize(+)");
      bp::resize(s, T(-a));
      expectR<T>(s, ws, c, "resize(-)");
      t += a;
      expectR<T>(t, wb, c, "operator+=(int)");
      u -= a;
      expectR<T>(u, ws, c, "operator-=(int)");
      Set v = S0 + a, w = S0 - a;
      expectR<T>(v, wb, c, "operator+(int)");
      expectR<T>(w, ws, c, "operator-(int)");
      expectR<T>(S0, R, c, "operand of operator+-(int)");
    }
    // containers of geometry as mutable sets
    std::vector<bp::rectangle_data<T> > rv;
    bp::get_rectangles(rv, S0);
    bp::bloat(rv, a, b, b, a);
    expectR<T>(rv, dilate(R, a, b, b, a), c, "bloat(vector<rectangle>)");
    std::vector<bp::polygon_90_data<T> > pv;
    S0.get(pv);
    bp::shrink(pv, a, b, b, a);
    expectR<T>(pv, erode(R, a, b, b, a), c, "shrink(vector<polygon_90>)");
    std::vector<bp::polygon_90_with_holes_data<T> > hv;
    S0.get(hv);
    bp::resize(hv, T(a), T(-b), T(b), T(a));
    expectR<T>(hv, resizeModel(R, a, -b, b, a), c, "resize(vector<polygon_90_with_holes>)");
    c.state(mc::mix(hashMask(g.W * 16 + g.H, m), 7000 + a * 16 + b));
    if (m) c.nontrivial(mc::mix(hashMask(g.W * 16 + g.H, m), 7000 + a * 16 + b));
  });
}

// grow_and of hole-free regions: points covered by at least two grown components
template <class T>
void growAnd(mc::Engine& e, const std::string& nm, const Grid<T>& g, int amax) {
  typedef bp::polygon_90_set_data<T> Set;
  int K = amax + 1;
  u64 n = u64(1) << (g.W * g.H);
  e.add(nm + "/" + g.name, n * K * K * K * K, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    int a[4];
    for (int k = 0; k < 4; ++k) a[k] = d.take(K);
    bool vert = mc::mix(3, i) & 1;
    Mask m = d.v;
    if (c.verbose) c.input("region=" + show(m, g.W, g.H) + " emb=" + g.name + " grow_and=" + amts(a[0], a[1], a[2], a[3]) + " orient=" + (vert ? "V" : "H"));
    int nc;
    std::vector<int> comp = components(m, g.W, g.H, &nc);
    Ras once, twice;
    for (int k = 0; k < nc; ++k) {
      Mask q = 0;
      for (int b = 0; b < g.W * g.H; ++b)
        if (comp[b] == k) q |= Mask(1) << b;
      Ras z = dilate(rasterOf(g, q), a[0], a[1], a[2], a[3]);
      for (int y = 0; y < N; ++y) {
        twice.r[y] |= once.r[y] & z.r[y];
        once.r[y] |= z.r[y];
      }
    }
    Set S(vert ? bp::VERTICAL : bp::HORIZONTAL);
    build(S, g, m, F_CELLS);
    bp::grow_and(S, a[0], a[1], a[2], a[3]);
    expectR<T>(S, twice, c, "grow_and");
    c.state(mc::mix(hashMask(g.W * 16 + g.H, m), 9000 + ((a[0] * 8 + a[1]) * 64 + a[2] * 8 + a[3])));
    if (nc > 1) c.nontrivial(mc::mix(hashMask(g.W * 16 + g.H, m), 9000 + ((a[0] * 8 + a[1]) * 64 + a[2] * 8 + a[3])));
  });
}
}  // namespace

MC_REGISTER(e) {
  bool th = e.thorough();
  four(e, "four3x3/int", gr<int>(3, 3, 0), 3, {F_CELLS, F_PWH});
  four(e, "four3x3/llong", gr<long long>(3, 3, 2), 3, {F_RUNS});
  four(e, "four4x4/int", gr<int>(4, 4, 1), 2, {F_CELLS});
  four(e, "framed4x4/int", gr<int>(6, 6, 1), 1, {F_CELLS}, 0, true);
  signedResize(e, "resize3x3/int", gr<int>(3, 3, 1), 3);
  signedResize(e, "resize4x3/int", gr<int>(4, 3, 2), 2);
  spellings(e, "spell3x3/int", gr<int>(3, 3, 1), 3);
  growAnd(e, "grow_and4x3/int", gr<int>(4, 3, 1), 2);
  growAnd(e, "grow_and3x4/int", gr<int>(3, 4, 2), 1);
  growAnd(e, "grow_and4x4/int/1", gr<int>(4, 4, 1), 1);
  if (th) {
    four(e, "four4x4/int/3", gr<int>(4, 4, 0), 3, {F_CELLS});
    four(e, "four5x4/int", gr<int>(5, 4, 1), 1, {F_CELLS});
    four(e, "framed4x4/int/2", gr<int>(6, 6, 2), 2, {F_CELLS}, 0, true);
    signedResize(e, "resize4x4/int", gr<int>(4, 4, 1), 2);
    spellings(e, "spell4x4/int", gr<int>(4, 4, 1), 3);
    growAnd(e, "grow_and4x4/int", gr<int>(4, 4, 2), 2);
  }
}
