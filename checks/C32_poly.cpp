// C32 (polygons): one generic program, run once with the library's polygon types
// and once with user types of the same coordinates; both runs must report the
// same values.
#include "c32.hpp"
using namespace c32;
namespace {
// every query and every map on one polygon
template <class P, class K>
void program(const Ref& r, Log& o, bool f45) {
  typedef typename K::Pt Pt;
  typedef typename K::Rc Rc;
  P p = build<P>(r);
  o("points");
  dump(p, o);
  o("area", i64(bp::area(p)));
  o("perimeter", i64(1000 * double(bp::perimeter(p))));
  o("winding", bp::winding(p).to_int());
  Rc b = bp::construct<Rc>(0, 0, 1, 1);
  o("extents", bp::extents(b, p));
  dumpRect(b, o);
  Pt c = bp::construct<Pt>(9, 9);
  o("center", bp::center(c, p));
  dumpPoint(c, o);
  i64 x0 = bp::xl(b), x1 = bp::xh(b), y0 = bp::yl(b), y1 = bp::yh(b);
  i64 sx = std::max<i64>(1, (x1 - x0) / 4), sy = std::max<i64>(1, (y1 - y0) / 4);
  for (i64 x = x0 - sx; x <= x1 + sx; x += sx)
    for (i64 y = y0 - sy; y <= y1 + sy; y += sy) {
      Pt q = bp::construct<Pt>(int(x), int(y));
      o("contains", bp::contains(p, q));
      o("contains open", bp::contains(p, q, false));
    }
  for (int k = 0; k < 15; ++k) {
    P t = build<P>(r);
    o("map", k);
    switch (k) {
      case 0:
        bp::move(t, bp::HORIZONTAL, 7);
        break;
      case 1:
        bp::move(t, bp::VERTICAL, -9);
        break;
      case 2:
        bp::convolve(t, bp::construct<Pt>(-4, 11));
        break;
      case 3:
        bp::scale_up(t, 3);
        break;
      case 4:
        if (f45) continue;
        bp::scale_down(t, 2);
        break;
      case 5:
        if (f45) continue;
        bp::scale(t, 1.5);
        break;
      case 6:
        bp::transform(t, bp::transformation<int>(bp::point_data<int>(3, -5)));
        break;
      default:
        bp::transform(t, bp::axis_transformation(bp::axis_transformation::ATR(k - 7)));
    }
    dump(t, o);
  }
}
// 45-degree only: rounding maps snap back
template <class P>
void program45(const Ref& r, Log& o) {
  for (int k = 0; k < 5; ++k) {
    P t = build<P>(r);
    o("map45", k);
    if (k < 2)
      bp::scale_down(t, k + 2);
    else if (k < 4)
      bp::scale(t, k == 2 ? 1.5 : 0.7);
    else
      bp::snap_to_45(t);
    dump(t, o);
  }
}
template <class D, class S>
void to(const S& s, Log& o, const char* nm) {
  D d;
  bp::assign(d, s);
  o(nm);
  dump(d, o);
}
template <class A, class B>
void same(const Log& a, const Log& b, mc::Case& c, const char* what) {
  a.compare(b, c, what);
}
// S: standard pack, U: user pack
template <class S, class U>
void packs(const Ref& r, int kind, mc::Case& c) {
  Ref s = r;
  s.holes.clear();
  auto both = [&](auto fs, auto fu, const char* what) {
    Log a, b;
    fs(a);
    fu(b);
    c.step();
    a.compare(b, c, what);
  };
  if (r.holes.empty()) both([&](Log& o) { program<typename S::A, S>(r, o, false); }, [&](Log& o) { program<typename U::A, U>(r, o, false); }, "polygon");
  both([&](Log& o) { program<typename S::AH, S>(r, o, false); }, [&](Log& o) { program<typename U::AH, U>(r, o, false); }, "polygon_with_holes");
  both([&](Log& o) { assigns<S, S>(r, kind, o); }, [&](Log& o) { assigns<U, U>(r, kind, o); }, "assign");
  both([&](Log& o) { assigns<S, S>(r, kind, o); }, [&](Log& o) { assigns<S, U>(r, kind, o); }, "assign from the library's types");
  both([&](Log& o) { assigns<S, S>(r, kind, o); }, [&](Log& o) { assigns<U, S>(r, kind, o); }, "assign to the library's types");
  if (kind == 0) return;
  if (r.holes.empty()) both([&](Log& o) { program<typename S::F, S>(r, o, true); program45<typename S::F>(r, o); }, [&](Log& o) { program<typename U::F, U>(r, o, true); program45<typename U::F>(r, o); }, "polygon_45");
  both([&](Log& o) { program<typename S::FH, S>(r, o, true); program45<typename S::FH>(r, o); }, [&](Log& o) { program<typename U::FH, U>(r, o, true); program45<typename U::FH>(r, o); }, "polygon_45_with_holes");
  if (kind == 1) return;
  if (r.holes.empty()) both([&](Log& o) { program<typename S::R, S>(r, o, false); }, [&](Log& o) { program<typename U::R, U>(r, o, false); }, "polygon_90");
  both([&](Log& o) { program<typename S::RH, S>(r, o, false); }, [&](Log& o) { program<typename U::RH, U>(r, o, false); }, "polygon_90_with_holes");
}
struct Item {
  Loop l;
  int kind;
};
void family(mc::Engine& e, const std::string& nm, const std::vector<i64>& X, const std::vector<i64>& Y, int k, cyc::Kind kind, bool holes) {
  auto v = std::make_shared<std::vector<Item>>();
  for (auto& l : cyc::cycles(X, Y, k, kind, false)) {
    bool rect = true;
    for (size_t i = 0; i < l.size(); ++i) {
      const P &p = l[i], &q = l[(i + 1) % l.size()];
      if (p.x != q.x && p.y != q.y) rect = false;
    }
    v->push_back(Item{l, rect ? 2 : cyc::is45(l) ? 1 : 0});
  }
  e.add(nm, v->size() * 8, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    unsigned rev = d.take(2), close = d.take(2), st = d.take(2);
    const Item& it = (*v)[d.take(v->size())];
    Ref r;
    int kk = it.kind;
    if (holes) {
      i64 a = X[0], b = X.back(), cc = Y[0], dd = Y.back(), w = std::max<i64>(4, (b - a) / 2);
      r.shell = cyc::variant(Loop{{a - w, cc - w}, {b + w, cc - w}, {b + w, dd + w}, {a - w, dd + w}}, st, rev, close);
      r.holes.push_back(cyc::variant(it.l, st, !rev, close));
    } else
      r.shell = cyc::variant(it.l, st, rev, close);
    if (c.verbose) c.input(arr::show(r.shell) + (holes ? " hole " + arr::show(r.holes) : ""));
    u64 h = mc::mix(kk, holes);
    for (auto& p : it.l) h = mc::mix(mc::mix(h, u64(p.x)), u64(p.y));
    c.state(h);
    c.nontrivial(mc::mix(h, mc::mix(rev, mc::mix(close, st))));
    if (close) {
      packs<Std, User<1>>(r, kk, c);
      packs<Std, User<3>>(r, kk, c);
    } else {
      packs<Std, User<0>>(r, kk, c);
      packs<Std, User<2>>(r, kk, c);
    }
  });
}
}  // namespace
MC_REGISTER(e) {
  std::vector<i64> g{-5, 1, 7}, g4{0, 2, 4, 6}, w{-40000, 3, 50001}, t4{-9, -1, 0, 12}, u{0, 4, 8};
  family(e, "any_3x3", g, u, e.thorough() ? 6 : 5, cyc::ANY, false);
  family(e, "any_wide", w, w, 4, cyc::ANY, false);
  family(e, "f45_4x4", g4, g4, e.thorough() ? 6 : 5, cyc::K45, false);
  family(e, "rect_4x4", t4, t4, e.thorough() ? 10 : 8, cyc::RECT, false);
  family(e, "hole_any", g, u, e.thorough() ? 5 : 4, cyc::ANY, true);
  family(e, "hole_45", u, u, e.thorough() ? 6 : 5, cyc::K45, true);
  family(e, "hole_rect", g, g, 8, cyc::RECT, true);
}
