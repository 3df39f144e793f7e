// C17: every conversion (assignment, view, compact form) between polygon types
// and every coordinate map on polygon objects, for all simple polygons over
// small grids, all start vertices, both windings, open and closed vertex lists,
// without and with holes.
#include "cust.hpp"
#include "cyc.hpp"
#include <boost/polygon/polygon.hpp>
namespace bp = boost::polygon;
using namespace cyc;
namespace {
typedef std::vector<i64> V;
const i64 SNAP = 4;
V upto(int n, i64 m, i64 t) {
  V r;
  for (int i = 0; i <= n; ++i) r.push_back(i * m + t);
  return r;
}
template <class T>
struct Is {
  typedef typename bp::geometry_concept<T>::type G;
  static const bool holes = std::is_same<G, bp::polygon_with_holes_concept>::value || std::is_same<G, bp::polygon_45_with_holes_concept>::value || std::is_same<G, bp::polygon_90_with_holes_concept>::value;
  static const bool rect = std::is_same<G, bp::polygon_90_concept>::value || std::is_same<G, bp::polygon_90_with_holes_concept>::value;
  static const bool f45 = std::is_same<G, bp::polygon_45_concept>::value || std::is_same<G, bp::polygon_45_with_holes_concept>::value;
};
template <class C>
std::vector<bp::point_data<C>> pts(const Loop& l) {
  std::vector<bp::point_data<C>> v;
  for (auto& p : l) v.push_back(bp::point_data<C>(C(p.x), C(p.y)));
  return v;
}
template <class T, class C>
T make(const Loop& l) {
  auto v = pts<C>(l);
  T t;
  bp::set_points(t, v.begin(), v.end());
  return t;
}
template <class T>
Loop raw(const T& t) {
  Loop l;
  for (auto it = bp::begin_points(t); it != bp::end_points(t); ++it) l.push_back(P{i64(bp::x(*it)), i64(bp::y(*it))});
  return l;
}
// vertex cycle without repeated neighbours
Loop tidy(const Loop& l) {
  Loop r;
  for (auto& p : l)
    if (r.empty() || r.back() != p) r.push_back(p);
  while (r.size() > 1 && r.back() == r[0]) r.pop_back();
  return r;
}
bool sameCycle(const Loop& a, const Loop& b) {
  if (a.size() != b.size()) return false;
  if (a.empty()) return true;
  for (size_t s = 0; s < a.size(); ++s) {
    bool ok = true;
    for (size_t i = 0; ok && i < a.size(); ++i) ok = a[(s + i) % a.size()] == b[i];
    if (ok) return true;
  }
  return false;
}
struct Ref {
  Loop shell;  // as given (start, winding, closing point)
  std::vector<Loop> holes;
};
std::string show(const Ref& r) { return arr::show(r.shell) + (r.holes.empty() ? "" : " holes " + arr::show(r.holes)); }
// points: vertices must come back one by one as given; otherwise up to rotation
template <class T>
void same(const T& t, const Loop& want, bool points, mc::Case& c, const std::string& what) {
  Loop got = raw(t);
  if (points && !Is<T>::rect) {
    if (got != want) c.fail("vertices", what + ": vertices " + arr::show(got) + " instead of " + arr::show(want));
    if (bp::size(t) != want.size()) c.fail("size", what + ": size");
  } else if (!sameCycle(tidy(got), tidy(want)))
    c.fail("cycle", what + ": vertices " + arr::show(got) + " instead of " + arr::show(want));
}
template <class T, bool H = Is<T>::holes>
struct NH {
  static std::size_t n(const T& t) { return bp::size_holes(t); }
};
template <class T>
struct NH<T, false> {
  static std::size_t n(const T&) { return 0; }
};
template <class T>
void check(const T& t, const Ref& r, bool points, mc::Case& c, const std::string& what) {
  same(t, r.shell, points, c, what);
  std::size_t n = NH<T>::n(t), i = 0;
  if (n != r.holes.size()) c.fail("holes", what + ": " + std::to_string(n) + " holes instead of " + std::to_string(r.holes.size()));
  for (auto it = bp::begin_holes(t); it != bp::end_holes(t); ++it, ++i) {
    if (i >= n) c.fail("holes", what + ": hole iterators");
    same(*it, r.holes[i], points, c, what + " hole");
  }
  if (i != n) c.fail("holes", what + ": hole iterators");
}
template <class C>
struct Ty {
  typedef bp::polygon_data<C> A;
  typedef bp::polygon_with_holes_data<C> AH;
  typedef bp::polygon_45_data<C> F;
  typedef bp::polygon_45_with_holes_data<C> FH;
  typedef bp::polygon_90_data<C> R;
  typedef bp::polygon_90_with_holes_data<C> RH;
};
template <class T, class C, bool H = Is<T>::holes>
struct Build {
  static T make(const Ref& r) { return ::make<T, C>(r.shell); }
};
template <class T, class C>
struct Build<T, C, true> {
  static T make(const Ref& r) {
    T t = ::make<T, C>(r.shell);
    std::vector<typename bp::polygon_with_holes_traits<T>::hole_type> h;
    for (auto& x : r.holes) h.push_back(::make<typename bp::polygon_with_holes_traits<T>::hole_type, C>(x));
    bp::set_holes(t, h.begin(), h.end());
    return t;
  }
};
// something else, to be overwritten
template <class T, class C>
T dirty() {
  Ref r;
  r.shell = Loop{{-50, -50}, {70, -50}, {70, 90}, {-50, 90}, {-50, 10}, {-60, 10}, {-60, 0}, {-50, 0}};
  r.holes.push_back(Loop{{1, 1}, {2, 1}, {2, 2}, {1, 2}});
  return Build<T, C>::make(r);
}
Ref shellOnly(const Ref& r) {
  Ref q = r;
  q.holes.clear();
  return q;
}
template <class D, class S, class C>
void conv(const S& s, const Ref& r, mc::Case& c, const std::string& what, bool points) {
  Ref want = Is<D>::holes ? r : shellOnly(r);
  D d = dirty<D, C>();
  bp::assign(d, s);
  c.step();
  check(d, want, points, c, what + " assigned");
  D e = dirty<D, C>();
  e = s;
  check(e, want, points, c, what + " operator=");
  D f;
  f = s;
  check(f, want, points, c, what + " operator= to a new object");
  D g(e);
  check(g, want, points, c, what + " copy");
  D h = dirty<D, C>();
  h = g;
  check(h, want, points, c, what + " copy assignment");
  check(g, want, points, c, what + " source of the copy");
  // onto itself
  D& alias = h;
  h = alias;
  check(h, want, points, c, what + " self assignment");
  bp::assign(h, alias);
  check(h, want, points, c, what + " assign to itself");
}
template <class T>
V compact(const T& t) {
  V v;
  for (auto it = bp::begin_compact(t); it != bp::end_compact(t); ++it) v.push_back(i64(*it));
  return v;
}
template <class T, class C>
void fromCompact(const V& v, const Ref& r, mc::Case& c, const std::string& what) {
  std::vector<C> w(v.begin(), v.end());
  T t = dirty<T, C>();
  bp::set_compact(t, w.begin(), w.end());
  same(t, r.shell, false, c, what);
}
template <class C>
void conversions(const Ref& r, Kind kind, mc::Case& c) {
  typedef Ty<C> Y;
  Ref s = shellOnly(r);
  typename Y::A a = make<typename Y::A, C>(r.shell);
  typename Y::AH ah = Build<typename Y::AH, C>::make(r);
  check(a, s, true, c, "polygon");
  check(ah, r, true, c, "polygon_with_holes");
  conv<typename Y::A, typename Y::A, C>(a, s, c, "polygon from polygon", true);
  conv<typename Y::AH, typename Y::A, C>(a, s, c, "polygon_with_holes from polygon", true);
  conv<typename Y::AH, typename Y::AH, C>(ah, r, c, "polygon_with_holes from itself", true);
  conv<typename Y::A, bp::view_of<bp::polygon_concept, typename Y::AH>, C>(bp::view_as<bp::polygon_concept>(ah), s, c, "polygon from viewed polygon_with_holes", true);
  if (kind == ANY) return;
  typename Y::F f = make<typename Y::F, C>(r.shell);
  typename Y::FH fh = Build<typename Y::FH, C>::make(r);
  check(f, s, true, c, "polygon_45");
  check(fh, r, true, c, "polygon_45_with_holes");
  conv<typename Y::A, typename Y::F, C>(f, s, c, "polygon from polygon_45", true);
  conv<typename Y::F, typename Y::F, C>(f, s, c, "polygon_45 from polygon_45", true);
  conv<typename Y::FH, typename Y::F, C>(f, s, c, "polygon_45_with_holes from polygon_45", true);
  conv<typename Y::AH, typename Y::F, C>(f, s, c, "polygon_with_holes from polygon_45", true);
  conv<typename Y::FH, typename Y::FH, C>(fh, r, c, "polygon_45_with_holes from itself", true);
  conv<typename Y::AH, typename Y::FH, C>(fh, r, c, "polygon_with_holes from polygon_45_with_holes", true);
  conv<typename Y::F, bp::view_of<bp::polygon_45_concept, typename Y::A>, C>(bp::view_as<bp::polygon_45_concept>(a), s, c, "polygon_45 from viewed polygon", true);
  conv<typename Y::F, bp::view_of<bp::polygon_45_concept, typename Y::AH>, C>(bp::view_as<bp::polygon_45_concept>(ah), s, c, "polygon_45 from viewed polygon_with_holes", true);
  conv<typename Y::F, bp::view_of<bp::polygon_45_concept, typename Y::FH>, C>(bp::view_as<bp::polygon_45_concept>(fh), s, c, "polygon_45 from viewed polygon_45_with_holes", true);
  conv<typename Y::FH, bp::view_of<bp::polygon_45_with_holes_concept, typename Y::AH>, C>(bp::view_as<bp::polygon_45_with_holes_concept>(ah), r, c, "polygon_45_with_holes from viewed polygon_with_holes", true);
  if (kind == K45) return;
  typename Y::R q = make<typename Y::R, C>(r.shell);
  typename Y::RH qh = Build<typename Y::RH, C>::make(r);
  check(q, s, false, c, "polygon_90");
  check(qh, r, false, c, "polygon_90_with_holes");
  conv<typename Y::R, typename Y::R, C>(q, s, c, "polygon_90 from polygon_90", false);
  conv<typename Y::F, typename Y::R, C>(q, s, c, "polygon_45 from polygon_90", false);
  conv<typename Y::A, typename Y::R, C>(q, s, c, "polygon from polygon_90", false);
  conv<typename Y::RH, typename Y::R, C>(q, s, c, "polygon_90_with_holes from polygon_90", false);
  conv<typename Y::FH, typename Y::R, C>(q, s, c, "polygon_45_with_holes from polygon_90", false);
  conv<typename Y::AH, typename Y::R, C>(q, s, c, "polygon_with_holes from polygon_90", false);
  conv<typename Y::RH, typename Y::RH, C>(qh, r, c, "polygon_90_with_holes from itself", false);
  conv<typename Y::FH, typename Y::RH, C>(qh, r, c, "polygon_45_with_holes from polygon_90_with_holes", false);
  conv<typename Y::AH, typename Y::RH, C>(qh, r, c, "polygon_with_holes from polygon_90_with_holes", false);
  conv<typename Y::R, bp::view_of<bp::polygon_90_concept, typename Y::A>, C>(bp::view_as<bp::polygon_90_concept>(a), s, c, "polygon_90 from viewed polygon", false);
  conv<typename Y::R, bp::view_of<bp::polygon_90_concept, typename Y::F>, C>(bp::view_as<bp::polygon_90_concept>(f), s, c, "polygon_90 from viewed polygon_45", false);
  conv<typename Y::R, bp::view_of<bp::polygon_90_concept, typename Y::AH>, C>(bp::view_as<bp::polygon_90_concept>(ah), s, c, "polygon_90 from viewed polygon_with_holes", false);
  conv<typename Y::R, bp::view_of<bp::polygon_90_concept, typename Y::FH>, C>(bp::view_as<bp::polygon_90_concept>(fh), s, c, "polygon_90 from viewed polygon_45_with_holes", false);
  conv<typename Y::R, bp::view_of<bp::polygon_90_concept, typename Y::RH>, C>(bp::view_as<bp::polygon_90_concept>(qh), s, c, "polygon_90 from viewed polygon_90_with_holes", false);
  conv<typename Y::RH, bp::view_of<bp::polygon_90_with_holes_concept, typename Y::AH>, C>(bp::view_as<bp::polygon_90_with_holes_concept>(ah), r, c, "polygon_90_with_holes from viewed polygon_with_holes", false);
  conv<typename Y::RH, bp::view_of<bp::polygon_90_with_holes_concept, typename Y::FH>, C>(bp::view_as<bp::polygon_90_with_holes_concept>(fh), r, c, "polygon_90_with_holes from viewed polygon_45_with_holes", false);
  // compact form
  V k = compact(q), kh = compact(qh);
  if (k != kh) c.fail("compact", "compact form of polygon_90 and polygon_90_with_holes differ");
  for (size_t i = 0; i < k.size(); ++i) {
    // alternately x and y of the boundary lines
    size_t n = r.shell.size();
    bool found = false;
    for (size_t j = 0; !found && j < n; ++j) found = (i % 2 ? r.shell[j].y : r.shell[j].x) == k[i];
    if (!found) c.fail("compact", "compact coordinate " + std::to_string(k[i]));
  }
  fromCompact<typename Y::R, C>(k, r, c, "polygon_90 from compact");
  fromCompact<typename Y::RH, C>(k, r, c, "polygon_90_with_holes from compact");
  fromCompact<typename Y::FH, C>(k, r, c, "polygon_45_with_holes from compact");
  fromCompact<typename Y::AH, C>(k, r, c, "polygon_with_holes from compact");
  // rectangles
  if (tidy(r.shell).size() == 4) {
    i64 x0 = r.shell[0].x, x1 = x0, y0 = r.shell[0].y, y1 = y0;
    for (auto& p : r.shell) x0 = std::min(x0, p.x), x1 = std::max(x1, p.x), y0 = std::min(y0, p.y), y1 = std::max(y1, p.y);
    bp::rectangle_data<C> rc{C(x0), C(y0), C(x1), C(y1)};
    auto rectOf = [&](const auto& v, const char* nm) {
      bp::rectangle_data<C> d;
      bp::assign(d, bp::view_as<bp::rectangle_concept>(v));
      if (!(d == rc)) c.fail("rectangle", std::string(nm) + " viewed as a rectangle");
    };
    rectOf(a, "polygon");
    rectOf(f, "polygon_45");
    rectOf(q, "polygon_90");
    rectOf(ah, "polygon_with_holes");
    rectOf(fh, "polygon_45_with_holes");
    rectOf(qh, "polygon_90_with_holes");
    Ref want;
    want.shell = Loop{{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}};
    auto ofRect = [&](auto t, const char* nm) {
      bp::assign(t, rc);
      check(t, want, false, c, std::string(nm) + " from a rectangle");
      t = rc;
      check(t, want, false, c, std::string(nm) + " = rectangle");
    };
    ofRect(dirty<typename Y::A, C>(), "polygon");
    ofRect(dirty<typename Y::F, C>(), "polygon_45");
    ofRect(dirty<typename Y::R, C>(), "polygon_90");
    ofRect(dirty<typename Y::AH, C>(), "polygon_with_holes");
    ofRect(dirty<typename Y::FH, C>(), "polygon_45_with_holes");
    ofRect(dirty<typename Y::RH, C>(), "polygon_90_with_holes");
  }
}
// --- maps
i64 fl(double v) { return i64(std::floor(v + 0.5)); }
struct Op {
  int kind, a;
  i64 dx, dy;
  double f;
};
const std::vector<Op>& ops() {
  static std::vector<Op> o;
  if (o.empty()) {
    o.push_back(Op{0, 0, 7, 0, 0});
    o.push_back(Op{0, 1, 0, -9, 0});
    o.push_back(Op{1, 0, -4, 11, 0});
    for (int i = 0; i < 8; ++i) o.push_back(Op{2, i, 0, 0, 0});
    for (int i = 0; i < 8; ++i) o.push_back(Op{3, i, 5, -3, 0});
    for (int i = 1; i < 4; ++i) o.push_back(Op{4, i, 0, 0, 0});
    for (int i = 1; i < 8; ++i) o.push_back(Op{5, i, 0, 0, 0});
    for (double f : {1.0, 2.0, 0.5, 1.5, 0.25, -1.0, 0.75, 0.3, 1.25, -0.6}) o.push_back(Op{6, 0, 0, 0, f});
  }
  return o;
}
std::string opName(const Op& o) {
  static const char* n[] = {"move", "convolve", "transform", "transform with displacement", "scale_up", "scale_down", "scale"};
  return std::string(n[o.kind]) + " " + std::to_string(o.kind == 6 ? o.f : o.a);
}
P ax(int k, P p) {
  if (k & 1) p.x = -p.x;
  if (k & 2) p.y = -p.y;
  if (k & 4) std::swap(p.x, p.y);
  return p;
}
bp::axis_transformation axt(int k) {
  // built from its definition: images of the axes
  static bp::axis_transformation::ATR t[] = {bp::axis_transformation::NULL_TRANSFORM, bp::axis_transformation::FLIP_X, bp::axis_transformation::FLIP_Y, bp::axis_transformation::FLIP_XY, bp::axis_transformation::SWAP_XY, bp::axis_transformation::ROTATE_LEFT, bp::axis_transformation::ROTATE_RIGHT, bp::axis_transformation::FLIP_SWAP_XY};
  return bp::axis_transformation(t[k]);
}
// exact image of p, scaled by 1 (integral coordinates only)
P image(const Op& o, const P& p, bool integral) {
  switch (o.kind) {
    case 0:
    case 1:
      return P{p.x + o.dx, p.y + o.dy};
    case 2:
      return ax(o.a, p);
    case 3: {
      P q = ax(o.a, P{p.x - o.dx, p.y - o.dy});
      return P{q.x + 2, q.y - 6};
    }
    case 4:
      return P{p.x * o.a, p.y * o.a};
    case 5:
      return integral ? P{fl(double(p.x) / o.a), fl(double(p.y) / o.a)} : P{p.x / o.a, p.y / o.a};
    default:
      return integral ? P{fl(double(p.x) * o.f), fl(double(p.y) * o.f)} : P{i64(double(p.x) * o.f), i64(double(p.y) * o.f)};
  }
}
template <class T, class C>
void apply(T& t, const Op& o) {
  switch (o.kind) {
    case 0:
      bp::move(t, o.a ? bp::VERTICAL : bp::HORIZONTAL, C(o.dx + o.dy));
      break;
    case 1:
      bp::convolve(t, bp::point_data<C>(C(o.dx), C(o.dy)));
      break;
    case 2:
      bp::transform(t, axt(o.a));
      break;
    case 3:
      bp::transform(t, bp::transformation<C>(axt(o.a), bp::point_data<C>(C(o.dx), C(o.dy)), bp::point_data<C>(2, -6)));
      break;
    case 4:
      bp::scale_up(t, o.a);
      break;
    case 5:
      bp::scale_down(t, o.a);
      break;
    default:
      bp::scale(t, o.f);
  }
}
Loop mapped(const Op& o, const Loop& l, bool integral) {
  Loop r;
  for (auto& p : l) r.push_back(image(o, p, integral));
  return r;
}
template <class T, class C, bool F45>
struct Maps {
  static void run(const Ref& r, mc::Case& c, const char* name) {
    for (auto& o : ops()) {
      bool integral = std::is_integral<C>::value;
      T t = Build<T, C>::make(r);
      Ref want;
      want.shell = mapped(o, r.shell, integral);
      if (Is<T>::holes)
        for (auto& h : r.holes) want.holes.push_back(mapped(o, h, integral));
      apply<T, C>(t, o);
      c.step();
      check(t, want, true, c, std::string(name) + " " + opName(o));
    }
  }
};
// 45-degree polygons: rounding maps are followed by snapping back to 45 degrees
void snapped(const Loop& got, const Loop& want, mc::Case& c, const std::string& what) {
  Loop w = tidy(want);
  if (w.size() >= 3 && is45(w)) {
    if (!sameCycle(tidy(got), w)) c.fail("snap-exact", what + ": vertices " + arr::show(got) + " instead of " + arr::show(w));
    return;
  }
  if (!is45(got)) c.fail("snap-45", what + ": " + arr::show(got) + " (from " + arr::show(w) + ") is not 45-degree");
  if (got.size() > w.size()) c.fail("snap-size", what + ": more vertices");
  for (auto& p : got) {
    i64 best = 1000;
    for (auto& q : w) best = std::min(best, std::max(std::abs(p.x - q.x), std::abs(p.y - q.y)));
    if (best > SNAP) c.fail("snap-far", what + ": vertex (" + std::to_string(p.x) + "," + std::to_string(p.y) + ") of " + arr::show(got) + " (from " + arr::show(w) + ") moved by " + std::to_string(best));
  }
}
template <class T>
void snappedAll(const T& t, const Ref& want, mc::Case& c, const std::string& what) {
  snapped(raw(t), want.shell, c, what);
  if (NH<T>::n(t) != want.holes.size()) c.fail("holes", what + ": number of holes");
  size_t i = 0;
  for (auto it = bp::begin_holes(t); it != bp::end_holes(t); ++it, ++i) snapped(raw(*it), want.holes[i], c, what + " hole");
}
template <class T, class C>
struct Maps<T, C, true> {
  static void run(const Ref& r, mc::Case& c, const char* name) {
    for (auto& o : ops()) {
      T t = Build<T, C>::make(r);
      Ref want;
      want.shell = mapped(o, r.shell, true);
      if (Is<T>::holes)
        for (auto& h : r.holes) want.holes.push_back(mapped(o, h, true));
      apply<T, C>(t, o);
      c.step();
      if (o.kind < 5)
        check(t, want, true, c, std::string(name) + " " + opName(o));
      else
        snappedAll(t, want, c, std::string(name) + " " + opName(o));
    }
  }
};
template <class C>
void maps(const Ref& r, Kind kind, mc::Case& c) {
  typedef Ty<C> Y;
  Maps<typename Y::A, C, false>::run(r, c, "polygon");
  Maps<typename Y::AH, C, false>::run(r, c, "polygon_with_holes");
  if (kind != ANY) {
    Maps<typename Y::F, C, true>::run(r, c, "polygon_45");
    Maps<typename Y::FH, C, true>::run(r, c, "polygon_45_with_holes");
  }
  if (kind == RECT) {
    Maps<typename Y::R, C, false>::run(r, c, "polygon_90");
    Maps<typename Y::RH, C, false>::run(r, c, "polygon_90_with_holes");
  }
}
struct Sp {
  std::vector<Loop> loops, holes;
};
template <class C, bool doMaps>
void one(const Sp& sp, Kind kind, u64 i, mc::Case& c) {
  mc::Digits d(i);
  const Loop& l = sp.loops[d.take(unsigned(sp.loops.size()))];
  unsigned h = sp.holes.empty() ? 0 : d.take(unsigned(sp.holes.size() + 1));
  c.state(mc::mix(i, u64(kind) * 2 + doMaps));
  c.nontrivial(mc::mix(i, u64(kind) * 2 + doMaps));
  c.input(arr::show(l) + (h ? " hole " + arr::show(sp.holes[h - 1]) : ""));
  for (int rev = 0; rev < 2; ++rev)
    for (int closed = 0; closed < 2; ++closed)
      for (size_t s = 0; s < l.size(); ++s) {
        if (doMaps && closed && s) continue;
        Ref r;
        r.shell = variant(l, s, rev, closed);
        if (h) {
          const Loop& x = sp.holes[h - 1];
          r.holes.push_back(variant(x, s % x.size(), !rev, closed));
          r.holes.push_back(variant(Loop{{100, 100}, {101, 100}, {101, 103}, {100, 103}}, s % 4, rev, !closed));
        }
        if constexpr (doMaps)
          maps<C>(r, kind, c);
        else
          conversions<C>(r, kind, c);
      }
}
}  // namespace
MC_REGISTER(e) {
  bool th = e.thorough();
  auto fam = [&](const std::string& name, Kind kind, const V& X, const V& Y, int k, bool straight, const std::vector<Loop>& holes, bool m) {
    auto sp = std::make_shared<Sp>();
    sp->loops = cycles(X, Y, k, kind, straight && kind != RECT);
    sp->holes = holes;
    u64 n = u64(sp->loops.size()) * (sp->holes.empty() ? 1 : sp->holes.size() + 1);
    e.add((m ? "map-" : "conv-") + name, n, [=](u64 i, mc::Case& c) { m ? one<int, true>(*sp, kind, i, c) : one<int, false>(*sp, kind, i, c); });
    if (!m && holes.empty()) {
      e.add("ll-conv-" + name, n, [=](u64 i, mc::Case& c) { one<long long, false>(*sp, kind, i, c); });
      e.add("dbl-conv-" + name, n, [=](u64 i, mc::Case& c) { one<double, false>(*sp, kind, i, c); });
    }
  };
  const i64 LO = -2147483648LL, HI = 2147483647LL;
  std::vector<Loop> none;
  for (int m = 0; m < 2; ++m) {
    V a = upto(3, 1, -1), b = upto(2, 1, -1), e2 = upto(4, 1, -2);
    fam("any-4x3", ANY, a, b, th ? 6 : 5, true, none, m);
    fam("any-3x3", ANY, b, b, th ? 9 : 7, true, none, m);
    fam("45-4x4", K45, a, a, th ? 7 : 5, true, none, m);
    fam("45-5x3", K45, e2, b, th ? 8 : 6, true, none, m);
    fam("45-wide", K45, upto(3, 3, -4), upto(th ? 3 : 2, 3, -4), th ? 7 : 8, false, none, m);
    fam("90-4x4", RECT, a, a, 12, false, none, m);
    fam("90-5x5", RECT, e2, e2, th ? 14 : 10, false, none, m);
    fam("90-irregular", RECT, V{-7, -6, 1, 5}, V{-9, -4, -3, 8}, th ? 12 : 8, false, none, m);
    fam("holes-any", ANY, b, b, 4, false, cycles(b, b, th ? 4 : 3, ANY, false), m);
    fam("holes-45", K45, b, b, 5, false, cycles(b, b, 4, K45, false), m);
    fam("holes-90", RECT, a, b, 8, false, cycles(a, a, 6, RECT, false), m);
    if (!m) {
      fam("any-ends", ANY, V{LO, 0, HI}, V{LO, -1, HI}, 4, true, none, m);
      fam("90-ends", RECT, V{LO, LO + 1, 0, HI}, V{LO, -1, HI - 1, HI}, 8, false, none, m);
    }
  }
}
