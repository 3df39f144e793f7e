// C33 (rectilinear): moving, transforming and scaling a Manhattan set yields the
// image of its region and a set that is fully usable afterwards: all regions of
// a small grid over irregular grid lines, both scan orientations, clean and
// unnormalised data, every map, and pairs of maps.
#define RAS_OFF 32
#include "ras.hpp"
using namespace m90;
using namespace boost::polygon::operators;
namespace {
struct Image {
  bool swap;
  std::function<int(int)> x, y;
  Ras operator()(const Ras& a) const { return mapLines(swap ? swapXY(a) : a, x, y); }
};
Image img(std::function<int(int)> x, std::function<int(int)> y, bool sw = false) { return Image{sw, x, y}; }
std::function<int(int)> mul(double f) { return [=](int v) { return rnd(v * f); }; }
std::function<int(int)> dvd(int f) { return [=](int v) { return rnd(double(v) / f); }; }
std::function<int(int)> add(int d, int s = 1) { return [=](int v) { return s * v + d; }; }
enum Shape { SET, RECTS, POLYS, HOLES, NSHAPE };
template <class T>
struct Map {
  typedef bp::polygon_90_set_data<T> Set;
  std::string name;
  Image im;
  std::function<void(Set&)> member, free;
  std::function<void(std::vector<bp::rectangle_data<T> >&)> rects;
  std::function<void(std::vector<bp::polygon_90_data<T> >&)> polys;
  std::function<void(std::vector<bp::polygon_90_with_holes_data<T> >&)> holes;
};
// f is a generic callable applied through the free functions to any set type
template <class T, class M, class F>
void put(std::vector<Map<T> >& v, const std::string& n, Image im, M member, F f) {
  Map<T> m;
  m.name = n;
  m.im = im;
  m.member = member;
  m.free = f, m.rects = f, m.polys = f, m.holes = f;
  v.push_back(m);
}
template <class T>
const std::vector<Map<T> >& maps() {
  static std::vector<Map<T> > v;
  if (!v.empty()) return v;
  typedef bp::polygon_90_set_data<T> Set;
  typedef bp::axis_transformation AT;
  for (int d = 0; d < 4; ++d) {
    int dx = (d & 1) ? 3 : 0, dy = (d & 2) ? -4 : 0;
    put(v, "move(" + str(dx) + "," + str(dy) + ")", img(add(dx), add(dy)), [=](Set& s) { s.move(dx, dy); }, [=](auto& s) { bp::move(s, dx, dy); });
  }
  put(v, "move(H,-5)", img(add(-5), add(0)), [](Set& s) { s.move(-5, 0); }, [](auto& s) { bp::move(s, bp::HORIZONTAL, -5); });
  put(v, "move(V,2)", img(add(0), add(2)), [](Set& s) { s.move(0, 2); }, [](auto& s) { bp::move(s, bp::orientation_2d(bp::VERTICAL), 2); });
  for (int k = 0; k < 8; ++k) {
    // flip x (bit 0), flip y (bit 1), then swap (bit 2)
    AT t((AT::ATR(k)));
    int sx = k & 1 ? -1 : 1, sy = k & 2 ? -1 : 1;
    Image im = (k & 4) ? img(add(0, sy), add(0, sx), true) : img(add(0, sx), add(0, sy));
    put(v, "transform(atr " + str(k) + ")", im, [=](Set& s) { s.transform(t); }, [=](auto& s) { bp::transform(s, t); });
    bp::transformation<T> tr(t, bp::point_data<T>(1, 2), bp::point_data<T>(3, -1));
    int ax = sx, ay = sy;
    // A(v - ref) + dest
    Image im2 = (k & 4) ? img(add(3 - ay * 2, ay), add(-1 - ax * 1, ax), true) : img(add(3 - ax * 1, ax), add(-1 - ay * 2, ay));
    put(v, "transform(transformation " + str(k) + ")", im2, [=](Set& s) { s.transform(tr); }, [=](auto& s) { bp::transform(s, tr); });
  }
  for (int f = 1; f <= 3; ++f) put(v, "scale_up(" + str(f) + ")", img(add(0, f), add(0, f)), [=](Set& s) { s.scale_up(f); }, [=](auto& s) { bp::scale_up(s, f); });
  for (int f : {1, 2, 3, 5, 7, 20}) put(v, "scale_down(" + str(f) + ")", img(dvd(f), dvd(f)), [=](Set& s) { s.scale_down(f); }, [=](auto& s) { bp::scale_down(s, f); });
  for (double f : {0.25, 0.5, 1.5, 2.0, -1.0, -0.5, 0.0}) {
    Map<T> m;
    m.name = "scale(" + str(f) + ")";
    m.im = img(mul(f), mul(f));
    m.member = [=](Set& s) { s.scale(f); };
    v.push_back(m);
  }
  double fs[] = {1.0, 0.5, 1.0 / 3, 2.0, -1.0, -0.5};
  for (double fx : fs)
    for (double fy : fs) {
      if (fx == fy && fx == 1.0) continue;
      bp::anisotropic_scale_factor<double> an(fx, fy);
      put(v, "scale(anisotropic " + str(fx) + "," + str(fy) + ")", img(mul(fx), mul(fy)), [=](Set& s) { s.scale(an); }, [=](auto& s) { bp::scale(s, an); });
      if (fx > 0 && fy > 0) {
        Map<T> m;
        m.name = "scale_with(anisotropic " + str(fx) + "," + str(fy) + ")";
        m.im = img(mul(fx), mul(fy));
        m.member = [=](Set& s) { s.scale_with(an); };
        v.push_back(m);
      }
    }
  return v;
}
template <class T>
void follow(bp::polygon_90_set_data<T>& s, const Ras& want, mc::Case& c, const std::string& nm, int rot) {
  typedef bp::polygon_90_set_data<T> Set;
  typedef bp::rectangle_data<T> Rect;
  bool any = want.any();
  long long ar = 0;
  int x0 = N, x1 = -1, y0 = N, y1 = -1;
  Set F(rot & 1 ? bp::VERTICAL : bp::HORIZONTAL);
  for (int y = 0; y < N; ++y)
    if (want.r[y]) {
      for (int x = 0; x < N; ++x)
        if ((want.r[y] >> x) & 1) {
          int e = x;
          while (e < N && ((want.r[y] >> e) & 1)) ++e;
          F.insert(Rect(x - OFF, y - OFF, e - OFF, y + 1 - OFF));
          ar += e - x;
          x0 = std::min(x0, x), x1 = std::max(x1, e);
          x = e;
        }
      y0 = std::min(y0, y), y1 = std::max(y1, y + 1);
    }
  const Rect K(-2, -1, 4, 3);
  Ras k;
  for (int y = -1; y < 3; ++y)
    for (int x = -2; x < 4; ++x) k.r[y + OFF] |= u64(1) << (x + OFF);
  for (int q = 0; q < 9; ++q) {
    c.step();
    switch ((q + rot) % 9) {
      case 0: expectR<T>(s, want, c, nm + ": region"); break;
      case 1:
        if (bp::empty(s) != !any) c.fail("empty", nm + ": empty");
        break;
      case 2:
        if (!(s == F) || (s != F)) c.fail("equality", nm + ": not equal to the set of its region");
        break;
      case 3: {
        Rect e;
        bool h = s.extents(e);
        if (h != any || (h && !(bp::xl(e) == x0 - OFF && bp::xh(e) == x1 - OFF && bp::yl(e) == y0 - OFF && bp::yh(e) == y1 - OFF))) c.fail("extents", nm + ": extents");
        break;
      }
      case 4:
        if ((long long)bp::area(s) != ar) c.fail("area", nm + ": area");
        break;
      case 5: {
        Set d(s & K);
        expectR<T>(d, andr(want, k), c, nm + ": AND with a rectangle");
        break;
      }
      case 6: {
        Set d;
        d = K - s;
        expectR<T>(d, notr(k, want), c, nm + ": rectangle minus the set");
        break;
      }
      case 7: {
        Set d(s);
        d.insert(K);
        expectR<T>(d, orr(want, k), c, nm + ": insert into a copy");
        break;
      }
      case 8: {
        std::vector<bp::polygon_90_with_holes_data<T> > ps;
        s.get(ps);
        Set d(bp::VERTICAL);
        d.insert(ps.begin(), ps.end());
        expectR<T>(d, want, c, nm + ": its polygons");
      }
    }
  }
}
// how the region is inserted
enum Prep { ROWS, CELLS_V, OVER, CLEAN, NPREP };
template <class T>
void build(bp::polygon_90_set_data<T>& s, const Grid<T>& g, Mask m, int prep) {
  for (int r = 0; r < g.H; ++r)
    for (int q = 0; q < g.W; ++q)
      if (g.has(m, q, r)) {
        int e = q;
        if (prep == ROWS || prep == CLEAN) {
          while (e + 1 < g.W && g.has(m, e + 1, r)) ++e;
        }
        s.insert(bp::rectangle_data<T>(g.xs[q], g.ys[r], g.xs[e + 1], g.ys[r + 1]));
        if (prep == OVER && r + 1 < g.H && g.has(m, q, r + 1)) s.insert(bp::rectangle_data<T>(g.xs[q], g.ys[r], g.xs[e + 1], g.ys[r + 2]));
        q = e;
      }
  if (prep == CLEAN) s.clean();
}
template <class T>
Grid<T> grid(const std::vector<int>& xs, const std::vector<int>& ys) {
  Grid<T> g;
  g.W = int(xs.size()) - 1, g.H = int(ys.size()) - 1;
  g.xs.assign(xs.begin(), xs.end());
  g.ys.assign(ys.begin(), ys.end());
  return g;
}
template <class T>
void member(mc::Engine& e, const std::string& nm, std::vector<int> xs, std::vector<int> ys) {
  Grid<T> g = grid<T>(xs, ys);
  const u64 nm_ = u64(1) << (g.W * g.H), nt = maps<T>().size();
  e.add("one/" + nm, nm_ * nt * 2 * NPREP, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    int prep = d.take(NPREP), o = d.take(2);
    const Map<T>& mp = maps<T>()[d.take(nt)];
    Mask m = d.take(nm_);
    bp::polygon_90_set_data<T> s(o ? bp::VERTICAL : bp::HORIZONTAL);
    if (c.verbose) c.input(std::string(o ? "V " : "H ") + "prep " + str(prep) + " " + show(m, g.W, g.H) + " " + mp.name);
    Ras want = mp.im(rasterOf(g, m));
    build(s, g, m, prep);
    mp.member(s);
    follow<T>(s, want, c, mp.name, int(i / 3 % 9));
    c.nontrivial(mc::mix(mc::mix(m, d.v), i));
    if (m) c.state(mc::mix(m, want.r[OFF]));
  });
}
template <class T>
void chain(mc::Engine& e, const std::string& nm, std::vector<int> xs, std::vector<int> ys) {
  Grid<T> g = grid<T>(xs, ys);
  const u64 nm_ = u64(1) << (g.W * g.H), nt = maps<T>().size();
  e.add("two/" + nm, nm_ * nt * nt * 4, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    int prep = d.take(2) ? OVER : CLEAN, o = d.take(2);
    const Map<T>&mp = maps<T>()[d.take(nt)], &mq = maps<T>()[d.take(nt)];
    Mask m = d.take(nm_);
    bp::polygon_90_set_data<T> s(o ? bp::VERTICAL : bp::HORIZONTAL);
    if (c.verbose) c.input(std::string(o ? "V " : "H ") + "prep " + str(prep) + " " + show(m, g.W, g.H) + " " + mp.name + " then " + mq.name);
    Ras want;
    try {
      want = mq.im(mp.im(rasterOf(g, m)));
    } catch (Skip&) {
      return;
    }
    build(s, g, m, prep);
    mp.member(s);
    mq.member(s);
    follow<T>(s, want, c, mp.name + " then " + mq.name, int(i / 3 % 9));
    c.nontrivial(i);
    c.state(mc::mix(want.r[OFF], want.r[OFF + 1]));
  });
}
// free functions on sets, vectors of rectangles, polygons and polygons with holes
template <class T>
void freeFn(mc::Engine& e, const std::string& nm, std::vector<int> xs, std::vector<int> ys) {
  Grid<T> g = grid<T>(xs, ys);
  const u64 nm_ = u64(1) << (g.W * g.H), nt = maps<T>().size();
  e.add("free/" + nm, nm_ * nt * NSHAPE, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    int sh = d.take(NSHAPE);
    const Map<T>& mp = maps<T>()[d.take(nt)];
    Mask m = d.take(nm_);
    if (!mp.free) return;
    if (c.verbose) c.input("form " + str(sh) + " " + show(m, g.W, g.H) + " " + mp.name);
    Ras want = mp.im(rasterOf(g, m));
    bp::polygon_90_set_data<T> s((m & 1) ? bp::VERTICAL : bp::HORIZONTAL);
    build(s, g, m, sh == SET ? OVER : CLEAN);
    bp::polygon_90_set_data<T> r;
    if (sh == SET) {
      mp.free(s);
      r = s;
    } else if (sh == RECTS) {
      std::vector<bp::rectangle_data<T> > v;
      bp::assign(v, s);
      mp.rects(v);
      for (auto& q : v) r.insert(q);
    } else if (sh == POLYS) {
      std::vector<bp::polygon_90_data<T> > v;
      bp::assign(v, s);
      mp.polys(v);
      for (auto& q : v) r.insert(q);
    } else {
      std::vector<bp::polygon_90_with_holes_data<T> > v;
      bp::assign(v, s);
      mp.holes(v);
      for (auto& q : v) r.insert(q);
    }
    follow<T>(r, want, c, "free " + mp.name, int(i / 3 % 9));
    c.nontrivial(i);
    c.state(mc::mix(want.r[OFF], want.r[OFF + 1]));
  });
}
}  // namespace
MC_REGISTER(e) {
  member<int>(e, "3x3/even", {0, 2, 4, 6}, {-2, 0, 2, 4});
  member<int>(e, "3x3/unit", {-1, 0, 1, 2}, {-2, -1, 0, 1});
  member<int>(e, "3x3/odd", {-5, -2, -1, 3}, {-4, -3, 2, 7});
  member<long long>(e, "ll/2x3", {-5, -2, 1}, {-3, -1, 0, 4});
  freeFn<int>(e, "3x3/odd", {-5, -2, -1, 3}, {-4, -3, 2, 7});
  chain<int>(e, "2x2", {-5, -2, 1}, {-1, 0, 4});
  if (e.thorough()) {
    member<int>(e, "4x4/odd", {-5, -2, -1, 3, 4}, {-4, -3, 2, 5, 7});
    chain<int>(e, "3x2", {-3, -2, 1, 2}, {-1, 0, 4});
    freeFn<int>(e, "4x3/odd", {-5, -2, -1, 3, 4}, {-4, -3, 2, 7});
  }
}
