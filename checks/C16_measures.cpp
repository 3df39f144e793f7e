// C16: area, winding, perimeter, extents, centre, is_45 and point containment of
// every simple polygon over small (also irregular and full-range) grids: every
// start vertex, both windings, open and closed vertex lists, with and without
// holes, for the three families of polygon types and three coordinate types.
#include "cust.hpp"
#include "cyc.hpp"
#include <boost/polygon/polygon.hpp>
namespace bp = boost::polygon;
using namespace cyc;
namespace {
const i64 LO = -2147483648LL, HI = 2147483647LL, FAR = i64(1) << 50;
typedef std::vector<i64> V;
struct Sp {
  std::vector<Loop> loops;
  V qx, qy;
};
V queries(const V& a, i64 lo, i64 hi) {
  std::set<i64> s;
  for (i64 v : a)
    for (i64 d = -1; d <= 1; ++d)
      if (v + d >= lo && v + d <= hi) s.insert(v + d);
  for (size_t i = 0; i + 1 < a.size(); ++i) s.insert(a[i] + (a[i + 1] - a[i]) / 2);
  return V(s.begin(), s.end());
}
Sp space(const V& X, const V& Y, int k, Kind kind, bool straight, i64 lo = LO, i64 hi = HI, int kmin = 3) {
  Sp s;
  s.loops = cycles(X, Y, k, kind, straight, kmin);
  s.qx = queries(X, lo, hi);
  s.qy = queries(Y, lo, hi);
  return s;
}
V mul(const V& v, i64 m, i64 t) {
  V r;
  for (i64 x : v) r.push_back(x * m + t);
  return r;
}
V upto(int n) {
  V r;
  for (int i = 0; i <= n; ++i) r.push_back(i);
  return r;
}
template <class T, class C>
T make(const Loop& l) {
  std::vector<bp::point_data<C>> v;
  for (auto& p : l) v.push_back(bp::point_data<C>(C(p.x), C(p.y)));
  T t;
  bp::set_points(t, v.begin(), v.end());
  return t;
}
template <class T>
struct Coord {
  typedef typename bp::polygon_traits<T>::coordinate_type type;
};
template <class T>
bool rectType() {
  return std::is_same<typename bp::geometry_domain<typename bp::geometry_concept<T>::type>::type, bp::manhattan_domain>::value;
}
long double len(const Loop& l) {
  long double r = 0;
  for (size_t i = 0; i < l.size(); ++i) {
    const P &a = l[i], &b = l[(i + 1) % l.size()];
    long double dx = (long double)(b.x - a.x), dy = (long double)(b.y - a.y);
    r += (!dx || !dy) ? std::fabs(dx) + std::fabs(dy) : std::sqrt(dx * dx + dy * dy);
  }
  return r;
}
template <class C>
struct Eps {
  static long double v() { return (long double)std::numeric_limits<C>::epsilon() * 16; }
};
// measures of t, whose vertices are those of l (counterclockwise, rev if
// reversed) less the holes
template <class T>
void measures(const T& t, const Loop& l, bool rev, const std::vector<Loop>& holes, mc::Case& c, const std::string& what) {
  typedef typename Coord<T>::type C;
  W a2 = area2(l);
  long double per = len(l);
  bool f45 = is45(l);
  for (auto& h : holes) {
    W x = area2(h);
    a2 -= x < 0 ? -x : x;
    per += len(h);
    f45 = f45 && is45(h);
  }
  long double ar = (long double)bp::area(t), want = (long double)(a2) / 2;
  typedef typename bp::area_type_by_domain<typename bp::geometry_domain<typename bp::geometry_concept<T>::type>::type, C>::type AT;
  // the sum of trapezoids is rounded to the area type
  i64 ax0 = l[0].x, ax1 = ax0, ay0 = l[0].y, ay1 = ay0;
  for (auto& p : l) ax0 = std::min(ax0, p.x), ax1 = std::max(ax1, p.x), ay0 = std::min(ay0, p.y), ay1 = std::max(ay1, p.y);
  long double tol = std::is_integral<AT>::value ? 0 : (long double)(ax1 - ax0) * (long double)(ay1 - ay0) * (long double)std::numeric_limits<AT>::epsilon() * 4;
  bool fits = !std::is_integral<AT>::value || want <= (long double)std::numeric_limits<AT>::max();
  if (fits && std::fabs(ar - want) > tol) c.fail("area", what + ": area " + std::to_string(ar) + ", should be " + std::to_string(want));
  bool cw = bp::winding(t) == bp::CLOCKWISE;
  if (cw != rev) c.fail("winding", what + ": wrong winding");
  long double pr = (long double)bp::perimeter(t);
  if (std::fabs(pr - per) > per * 1e-14L) c.fail("perimeter", what + ": perimeter " + std::to_string(pr) + ", should be " + std::to_string(per));
  if (bp::is_45(t) != f45) c.fail("is_45", what + ": is_45 says " + std::to_string(!f45));
  i64 x0 = l[0].x, x1 = x0, y0 = l[0].y, y1 = y0;
  for (auto& p : l) {
    x0 = std::min(x0, p.x);
    x1 = std::max(x1, p.x);
    y0 = std::min(y0, p.y);
    y1 = std::max(y1, p.y);
  }
  bp::rectangle_data<C> bb, ref{C(x0), C(y0), C(x1), C(y1)};
  if (!bp::extents(bb, t)) c.fail("extents", what + ": extents reports an empty polygon");
  if (!(bb == ref)) c.fail("extents", what + ": wrong extents");
  bp::point_data<C> ctr, refc;
  bp::center(ctr, t);
  bp::center(refc, ref);
  if (!(ctr == refc)) c.fail("center", what + ": wrong centre");
}
// grid: where() of every query point, for l and each hole
struct Loc {
  std::vector<P> q;
  std::vector<int> w;  // 1 strictly inside, 0 boundary, -1 outside
};
Loc locate(const Loop& l, const std::vector<Loop>& holes, const V& qx, const V& qy) {
  Loc r;
  for (i64 x : qx)
    for (i64 y : qy) {
      P p{x, y};
      int w = where(l, p);
      for (auto& h : holes) {
        int v = where(h, p);
        if (v == 1) w = -1;
        if (v == 0 && w == 1) w = 0;
      }
      r.q.push_back(p);
      r.w.push_back(w);
    }
  return r;
}
template <class T>
void points(const T& t, const Loc& loc, mc::Case& c, const std::string& what) {
  typedef typename Coord<T>::type C;
  for (size_t i = 0; i < loc.q.size(); ++i) {
    const P& p = loc.q[i];
    bp::point_data<C> q(C(p.x), C(p.y));
    bool a = bp::contains(t, q), b = bp::contains(t, q, true), d = bp::contains(t, q, false);
    if (a != b) c.fail("default", what + ": default argument");
    if (b != (loc.w[i] >= 0)) c.fail("contains", what + ": point (" + std::to_string(p.x) + "," + std::to_string(p.y) + ") touching considered: " + (b ? "inside" : "outside"));
    if (d != (loc.w[i] > 0)) c.fail("contains-open", what + ": point (" + std::to_string(p.x) + "," + std::to_string(p.y) + ") touching not considered: " + (d ? "inside" : "outside"));
  }
}
template <class T, class C>
void each(const Loop& l, const Loc& loc, mc::Case& c, const char* name) {
  for (int rev = 0; rev < 2; ++rev)
    for (int closed = 0; closed < 2; ++closed)
      for (size_t s = 0; s < l.size(); ++s) {
        Loop v = variant(l, s, rev, closed);
        std::string what = std::string(name) + " " + (c.verbose ? show(v) : std::string("start ") + std::to_string(s) + (rev ? " reversed" : "") + (closed ? " closed" : ""));
        T t = make<T, C>(v);
        c.step();
        if (!closed && bp::size(t) != l.size()) c.fail("size", what + ": size");
        measures(t, l, rev, std::vector<Loop>(), c, what);
        points(t, loc, c, what);
      }
}
template <class C>
struct Ty {
  typedef bp::polygon_data<C> A;
  typedef bp::polygon_with_holes_data<C> AH;
  typedef bp::polygon_45_data<C> F;
  typedef bp::polygon_45_with_holes_data<C> FH;
  typedef bp::polygon_90_data<C> R;
  typedef bp::polygon_90_with_holes_data<C> RH;
};
template <class C>
void one(const Sp& sp, Kind kind, u64 i, mc::Case& c) {
  const Loop& l = sp.loops[i];
  c.input(show(l));
  c.nontrivial(mc::mix(i, u64(kind) + 10 * sp.loops.size()));
  Loc loc = locate(l, std::vector<Loop>(), sp.qx, sp.qy);
  c.state(mc::mix(i, u64(kind)));
  each<typename Ty<C>::A, C>(l, loc, c, "polygon");
  if (kind != ANY) each<typename Ty<C>::F, C>(l, loc, c, "polygon_45");
  if (kind == RECT) each<typename Ty<C>::R, C>(l, loc, c, "polygon_90");
  // a with-holes object without holes
  Loop v = variant(l, i % l.size(), (i / 2) & 1, (i / 4) & 1);
  bool rev = (i / 2) & 1;
  {
    auto t = make<typename Ty<C>::AH, C>(v);
    measures(t, l, rev, std::vector<Loop>(), c, "polygon_with_holes");
    points(t, loc, c, "polygon_with_holes");
  }
  if (kind != ANY) {
    auto t = make<typename Ty<C>::FH, C>(v);
    measures(t, l, rev, std::vector<Loop>(), c, "polygon_45_with_holes");
    points(t, loc, c, "polygon_45_with_holes");
  }
  if (kind == RECT) {
    auto t = make<typename Ty<C>::RH, C>(v);
    measures(t, l, rev, std::vector<Loop>(), c, "polygon_90_with_holes");
    points(t, loc, c, "polygon_90_with_holes");
  }
  // the same polygon seen as another kind
  if (kind != ANY) {
    auto t = make<typename Ty<C>::A, C>(v);
    points(bp::view_as<bp::polygon_45_concept>(t), loc, c, "polygon viewed as polygon_45");
    measures(bp::view_as<bp::polygon_45_concept>(t), l, rev, std::vector<Loop>(), c, "polygon viewed as polygon_45");
  }
  if (kind == RECT) {
    auto t = make<typename Ty<C>::A, C>(v);
    points(bp::view_as<bp::polygon_90_concept>(t), loc, c, "polygon viewed as polygon_90");
    measures(bp::view_as<bp::polygon_90_concept>(t), l, rev, std::vector<Loop>(), c, "polygon viewed as polygon_90");
  }
}
template <class C>
void family(mc::Engine& e, const std::string& name, std::shared_ptr<Sp> sp, Kind kind) {
  e.add(name, sp->loops.size(), [=](u64 i, mc::Case& c) { one<C>(*sp, kind, i, c); });
}
// --- holes: one shell, up to two holes from the two halves of its inside
struct HSp {
  std::vector<Loop> shells, left, right;
  V q;
};
template <class T, class D, class C>
void holed(const Loop& sh, const std::vector<Loop>& holes, int variantBits, const Loc& loc, mc::Case& c, const char* name) {
  bool rev = variantBits & 1;
  T t = make<T, C>(variant(sh, (variantBits >> 1) % sh.size(), rev, variantBits & 2));
  std::vector<D> hv;
  int k = 0;
  for (auto& h : holes) {
    hv.push_back(make<D, C>(variant(h, (variantBits >> 2) % h.size(), ((variantBits >> 1) ^ k) & 1, (variantBits >> 2) & 1)));
    ++k;
  }
  bp::set_holes(t, hv.begin(), hv.end());
  c.step();
  std::string what = std::string(name) + " variant " + std::to_string(variantBits);
  if (bp::size_holes(t) != holes.size()) c.fail("size_holes", what + ": number of holes");
  measures(t, sh, rev, holes, c, what);
  points(t, loc, c, what);
}
template <class C>
void holesCase(const HSp& s, Kind kind, u64 i, mc::Case& c) {
  mc::Digits d(i);
  const Loop& sh = s.shells[d.take(unsigned(s.shells.size()))];
  unsigned a = d.take(unsigned(s.left.size() + 1)), b = d.take(unsigned(s.right.size() + 1));
  std::vector<Loop> holes;
  if (a) holes.push_back(s.left[a - 1]);
  if (b) holes.push_back(s.right[b - 1]);
  if (i & 1) std::reverse(holes.begin(), holes.end());
  c.input(show(sh) + " less " + show(holes));
  if (holes.size() > 1) c.nontrivial(mc::mix(i, u64(kind) + 7));
  c.state(mc::mix(i, u64(kind) + 100));
  Loc loc = locate(sh, holes, s.q, s.q);
  for (int v = 0; v < 8; ++v) {
    holed<typename Ty<C>::AH, typename Ty<C>::A, C>(sh, holes, v, loc, c, "polygon_with_holes");
    if (kind != ANY) holed<typename Ty<C>::FH, typename Ty<C>::F, C>(sh, holes, v, loc, c, "polygon_45_with_holes");
    if (kind == RECT) holed<typename Ty<C>::RH, typename Ty<C>::R, C>(sh, holes, v, loc, c, "polygon_90_with_holes");
  }
}
HSp holeSpace(Kind kind, int n, int kh) {
  // shells around [1, 2n+1] x [0.., ]; holes may touch the shell and each other
  HSp s;
  i64 a = 0, z = 2 * n;
  s.shells.push_back(Loop{{a, a}, {z, a}, {z, z}, {a, z}});
  if (kind != RECT) {
    i64 h = n;
    s.shells.push_back(Loop{{-h, h}, {h, -h}, {z + h, h}, {h, z + h}});
  } else {
    s.shells.push_back(Loop{{-1, -1}, {z, -1}, {z, 0}, {z + 1, 0}, {z + 1, z}, {-1, z}});
  }
  V l, r, y;
  for (int i = 0; i <= n; ++i) {
    l.push_back(i);
    r.push_back(n + i);
    y.push_back(2 * i);
  }
  s.left = cycles(l, y, kh, kind, false);
  s.right = cycles(r, y, kh, kind, false);
  for (i64 v = -n - 1; v <= 3 * n + 1; ++v) s.q.push_back(v);
  return s;
}
// --- degenerate objects
void degenerate(u64 i, mc::Case& c) {
  int n = int(i % 3);
  bool isHoled = i / 3 % 2;
  c.input(std::to_string(n) + " vertices");
  c.nontrivial(i);
  std::vector<bp::point_data<int>> v;
  for (int k = 0; k < n; ++k) v.push_back(bp::point_data<int>(3 * k + 1, 5 * k + 2));
  auto run = [&](auto t, const char* nm) {
    bp::set_points(t, v.begin(), v.end());
    c.step();
    bp::rectangle_data<int> bb(7, 7, 8, 8);
    bool has = bp::begin_points(t) != bp::end_points(t);
    if (bp::extents(bb, t) != has) c.fail("extents", std::string(nm) + ": extents of a degenerate polygon");
    if (bp::area(t) != 0) c.fail("area", std::string(nm) + ": area of a degenerate polygon");
    if (n < 2 && bp::perimeter(t) != 0) c.fail("perimeter", std::string(nm) + ": perimeter of a degenerate polygon");
    if (bp::contains(t, bp::point_data<int>(9, 9)) || bp::contains(t, bp::point_data<int>(0, 0), false)) c.fail("contains", std::string(nm) + ": degenerate polygon contains a point");
    bp::winding(t);
    bp::is_45(t);
  };
  if (!isHoled) {
    run(bp::polygon_data<int>(), "polygon");
    run(bp::polygon_45_data<int>(), "polygon_45");
    if (n != 1) run(bp::polygon_90_data<int>(), "polygon_90");
  } else {
    run(bp::polygon_with_holes_data<int>(), "polygon_with_holes");
    run(bp::polygon_45_with_holes_data<int>(), "polygon_45_with_holes");
    if (n != 1) run(bp::polygon_90_with_holes_data<int>(), "polygon_90_with_holes");
  }
}
}  // namespace
MC_REGISTER(e) {
  bool th = e.thorough();
  auto mk = [](const Sp& s) { return std::make_shared<Sp>(s); };
  // regular grids, doubled so that query points fall between grid lines
  family<int>(e, "any-4x4", mk(space(mul(upto(3), 2, -3), mul(upto(3), 2, -3), th ? 6 : 5, ANY, true)), ANY);
  family<int>(e, "any-3x3", mk(space(mul(upto(2), 2, 0), mul(upto(2), 2, 0), 9, ANY, true)), ANY);
  family<int>(e, "any-5x3", mk(space(mul(upto(4), 2, 0), mul(upto(2), 3, 0), th ? 6 : 5, ANY, true)), ANY);
  family<int>(e, "45-4x4", mk(space(mul(upto(3), 2, -3), mul(upto(3), 2, -3), th ? 9 : 7, K45, true)), K45);
  family<int>(e, "45-5x3", mk(space(mul(upto(4), 2, 0), mul(upto(2), 2, 0), th ? 9 : 7, K45, true)), K45);
  family<int>(e, "90-5x5", mk(space(mul(upto(4), 2, -3), mul(upto(4), 2, -3), th ? 16 : 12, RECT, false)), RECT);
  family<int>(e, "90-4x4", mk(space(mul(upto(3), 2, -3), mul(upto(3), 2, -3), 16, RECT, false)), RECT);
  // irregular grids reaching the ends of the coordinate range
  V full = {LO, LO + 1, -1, 2, HI - 1, HI}, ends = {LO, LO + 1, HI - 1, HI}, mid = {LO, 0, 1, HI};
  family<int>(e, "any-ends", mk(space(ends, ends, th ? 6 : 5, ANY, true)), ANY);
  family<int>(e, "any-ends-mid", mk(space(mid, ends, th ? 6 : 5, ANY, true)), ANY);
  family<int>(e, "any-full", mk(space(full, full, th ? 4 : 3, ANY, true)), ANY);
  family<int>(e, "45-ends", mk(space(V{LO, LO + 1, -1, 0, HI - 1, HI}, V{LO, LO + 1, -1, 0, HI - 1, HI}, th ? 6 : 5, K45, true)), K45);
  family<int>(e, "90-ends", mk(space(full, ends, th ? 14 : 10, RECT, false)), RECT);
  // other coordinate types
  family<long long>(e, "ll-any-4x3", mk(space(mul(upto(3), 2, 0), mul(upto(2), 2, 0), th ? 6 : 5, ANY, true)), ANY);
  family<long long>(e, "ll-any-wide", mk(space(mul(V{LO, LO + 1, 0, HI - 1}, 1, FAR), mul(V{LO + 1, LO + 2, HI - 1}, 1, -FAR), th ? 6 : 5, ANY, true, -2 * FAR, 2 * FAR)), ANY);
  family<long long>(e, "ll-45-wide", mk(space(mul(V{LO, LO / 2, 0, HI}, 1, -FAR), mul(V{LO, LO / 2, HI}, 1, FAR), th ? 7 : 6, K45, true, -2 * FAR, 2 * FAR)), K45);
  family<long long>(e, "ll-90-wide", mk(space(mul(V{LO, LO + 1, 0, HI}, 1, FAR), mul(V{LO, LO / 2, 1, HI - 1}, 1, FAR), 12, RECT, false, -2 * FAR, 2 * FAR)), RECT);
  family<double>(e, "dbl-any-4x3", mk(space(mul(upto(3), 2, 0), mul(upto(2), 2, 0), th ? 6 : 5, ANY, true)), ANY);
  family<double>(e, "dbl-45-4x4", mk(space(mul(upto(3), 2, 0), mul(upto(3), 2, 0), th ? 7 : 6, K45, true)), K45);
  family<double>(e, "dbl-90-4x4", mk(space(mul(upto(3), 2, 0), mul(upto(3), 2, 0), 12, RECT, false)), RECT);
  auto holes = [&](const std::string& name, Kind kind, int n, int kh) {
    auto s = std::make_shared<HSp>(holeSpace(kind, n, kh));
    u64 count = u64(s->shells.size()) * (s->left.size() + 1) * (s->right.size() + 1);
    e.add("holes-" + name, count, [=](u64 i, mc::Case& c) { holesCase<int>(*s, kind, i, c); });
  };
  holes("any", ANY, 2, th ? 5 : 3);
  holes("45", K45, 2, th ? 6 : 5);
  holes("90", RECT, 3, th ? 8 : 6);
  e.add("degenerate", 6, [](u64 i, mc::Case& c) { degenerate(i, c); });
}
