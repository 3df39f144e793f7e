// C32 (sets): generic programs over polygon sets, run with the library's types
// and with user types; same values required.
#include "c32.hpp"
using namespace c32;
using namespace bp::operators;
namespace {
template <class S>
void dump90(const S& s, Log& o) {
  bp::polygon_90_set_data<int> x;
  bp::assign(x, s);
  x.clean();
  std::vector<std::vector<i64>> e;
  bp::polygon_90_set_data<int> v(bp::VERTICAL);
  v += x;
  v.clean();
  for (auto it = v.begin(); it != v.end(); ++it) e.push_back({it->first, it->second.first, it->second.second});
  std::sort(e.begin(), e.end());
  o.put(i64(e.size()));
  for (auto& q : e)
    for (i64 w : q) o.put(w);
}
template <class S>
void dump45(const S& s, Log& o) {
  bp::polygon_45_set_data<int> x;
  bp::assign(x, s);
  x.clean();
  std::vector<bp::polygon_45_with_holes_data<int>> v;
  x.get(v);
  o.put(i64(v.size()));
  for (auto& p : v) dump(p, o);
}
template <class S>
void dumpA(const S& s, Log& o) {
  bp::polygon_set_data<int> x;
  bp::assign(x, s);
  x.clean();
  std::vector<bp::polygon_with_holes_data<int>> v;
  x.get(v);
  o.put(i64(v.size()));
  for (auto& p : v) dump(p, o);
}
template <class V>
void dumpSortedRects(const V& v, Log& o) {
  std::vector<std::vector<i64>> e;
  for (auto& r : v) e.push_back({i64(bp::xl(r)), i64(bp::yl(r)), i64(bp::xh(r)), i64(bp::yh(r))});
  std::sort(e.begin(), e.end());
  o.put(i64(e.size()));
  for (auto& q : e)
    for (i64 w : q) o.put(w);
}
template <class V>
void dumpSortedPolys(const V& v, Log& o) {
  std::vector<std::vector<i64>> e;
  for (auto& p : v) {
    Log l;
    dump(p, l);
    e.push_back(l.v);
  }
  std::sort(e.begin(), e.end());
  o.put(i64(e.size()));
  for (auto& q : e)
    for (i64 w : q) o.put(w);
}
// the four operators on two operands of any kind
#define FOUR(NAME, DST, DUMP, A, B) \
  {                                 \
    DST d;                          \
    o(NAME " +");                   \
    bp::assign(d, A + B);           \
    DUMP(d, o);                     \
    o(NAME " *");                   \
    bp::assign(d, A* B);            \
    DUMP(d, o);                     \
    o(NAME " -");                   \
    bp::assign(d, A - B);           \
    DUMP(d, o);                     \
    o(NAME " ^");                   \
    bp::assign(d, A ^ B);           \
    DUMP(d, o);                     \
    o(NAME " |");                   \
    bp::assign(d, A | B);           \
    DUMP(d, o);                     \
    o(NAME " &");                   \
    bp::assign(d, A& B);            \
    DUMP(d, o);                     \
  }
#define SELF(NAME, DST, DUMP, A, B) \
  {                                 \
    DST d;                          \
    o(NAME " +=");                  \
    bp::assign(d, A);               \
    d += B;                         \
    DUMP(d, o);                     \
    o(NAME " *=");                  \
    bp::assign(d, A);               \
    d *= B;                         \
    DUMP(d, o);                     \
    o(NAME " -=");                  \
    bp::assign(d, A);               \
    d -= B;                         \
    DUMP(d, o);                     \
    o(NAME " ^=");                  \
    bp::assign(d, A);               \
    d ^= B;                         \
    DUMP(d, o);                     \
    o(NAME " |=");                  \
    bp::assign(d, A);               \
    d |= B;                         \
    DUMP(d, o);                     \
    o(NAME " &=");                  \
    bp::assign(d, A);               \
    d &= B;                         \
    DUMP(d, o);                     \
  }
template <class K>
void program90(const Ref& ra, const Ref& rb, Log& o) {
  typedef typename K::S90 S;
  typedef typename K::Rc Rc;
  typename K::RH a = build<typename K::RH>(ra), b = build<typename K::RH>(rb);
  S sa, sb;
  bp::assign(sa, a);
  bp::assign(sb, b);
  o("assigned");
  dump90(sa, o);
  dump90(sb, o);
  FOUR("polygons", S, dump90, a, b)
  FOUR("sets", S, dump90, sa, sb)
  FOUR("set and polygon", S, dump90, sa, b)
  FOUR("polygon and set", S, dump90, a, sb)
  SELF("set with polygon", S, dump90, sa, b)
  SELF("set with set", S, dump90, sa, sb)
  {
    S d;
    bp::assign(d, (a + b) * (a ^ b) - (sa - sb));
    o("nested");
    dump90(d, o);
  }
  if (ra.holes.empty() && rb.holes.empty()) {
    typename K::R p = build<typename K::R>(ra), q = build<typename K::R>(rb);
    FOUR("polygons without holes", S, dump90, p, q)
    SELF("set with polygon without holes", S, dump90, sa, q)
    o("equivalence of polygons");
    o.put(bp::equivalence(p, q));
  }
  {
    Rc r = bp::construct<Rc>(0, 0, 1, 1), r2 = r;
    bp::extents(r, a);
    bp::extents(r2, b);
    r2 = bp::construct<Rc>(int(bp::xl(r2)), int(bp::yl(r2) + 1), int(bp::xh(r2) + 3), int(bp::yh(r2)));
    FOUR("rectangles", S, dump90, r, r2)
    FOUR("rectangle and polygon", S, dump90, r2, a)
    FOUR("set and rectangle", S, dump90, sa, r2)
    SELF("set with rectangle", S, dump90, sa, r2)
    o("equivalence with rectangle");
    o.put(bp::equivalence(sa, r));
    o.put(bp::equivalence(r, a));
  }
  o("equivalence");
  o.put(bp::equivalence(sa, sb));
  o.put(bp::equivalence(sa, a));
  o.put(bp::equivalence(a, b));
  S u;
  bp::assign(u, a + b);
  {
    std::vector<Rc> v;
    bp::get_rectangles(v, u);
    o("get_rectangles");
    dumpSortedRects(v, o);
    v.clear();
    bp::get_rectangles(v, u, bp::HORIZONTAL);
    o("get_rectangles horizontal");
    dumpSortedRects(v, o);
    v.clear();
    bp::get_rectangles(v, u, bp::VERTICAL);
    o("get_rectangles vertical");
    dumpSortedRects(v, o);
    v.clear();
    bp::get_max_rectangles(v, u);
    o("get_max_rectangles");
    dumpSortedRects(v, o);
    v.clear();
    bp::assign(v, u);
    o("assign to rectangles");  // sliced along the set's own scanline orientation
    dump90(v, o);
    std::vector<typename K::R> w;
    bp::assign(w, u);
    o("assign to polygons");  // holes are cut open along the orientation, too
    dump90(w, o);
    std::list<typename K::RH> x;
    bp::assign(x, u);
    o("assign to polygons with holes");
    dumpSortedPolys(x, o);
    // containers as sets
    o("vector of polygons");
    S d;
    bp::assign(d, w - b);
    dump90(d, o);
    w += b;
    dump90(w, o);
    o("list of polygons");
    x ^= sb;
    dumpSortedPolys(x, o);
    o("vector of rectangles");
    v *= a;
    dump90(v, o);
    o.put(i64(bp::area(w)));
  }
  o("area");
  o.put(i64(bp::area(u)));
  Rc ex = bp::construct<Rc>(0, 0, 0, 0);
  o("extents", bp::extents(ex, u));
  dumpRect(ex, o);
  o("empty", bp::empty(u));
  {
    S e;
    o("empty set", bp::empty(e));
    bp::assign(e, u);
    bp::clear(e);
    o("cleared", bp::empty(e));
  }
  for (int k = 0; k < 36; ++k) {
    S d;
    bp::assign(d, u);
    o("op", k);
    switch (k) {
      case 0: bp::bloat(d, 1u); break;
      case 1: bp::bloat(d, bp::HORIZONTAL, 2u); break;
      case 2: bp::bloat(d, bp::VERTICAL, 1u, 3u); break;
      case 3: bp::bloat(d, bp::WEST, 2u); break;
      case 4: bp::bloat(d, 1u, 2u, 3u, 4u); break;
      case 5: bp::shrink(d, 1u); break;
      case 6: bp::shrink(d, bp::HORIZONTAL, 1u); break;
      case 7: bp::shrink(d, bp::VERTICAL, 1u, 0u); break;
      case 8: bp::shrink(d, bp::NORTH, 1u); break;
      case 9: bp::shrink(d, 0u, 1u, 0u, 2u); break;
      case 10: bp::resize(d, 2); break;
      case 11: bp::resize(d, -1); break;
      case 12: bp::resize(d, 1, -1, 2, 0); break;
      case 13: bp::grow_and(d, 1u); break;
      case 14: bp::grow_and(d, bp::VERTICAL, 2u); break;
      case 15: bp::grow_and(d, bp::HORIZONTAL, 1u, 2u); break;
      case 16: bp::grow_and(d, bp::EAST, 3u); break;
      case 17: bp::grow_and(d, 1u, 2u, 1u, 0u); break;
      case 18: bp::scale_up(d, 3); break;
      case 19: bp::scale_down(d, 2); break;
      case 20: bp::scale(d, bp::anisotropic_scale_factor<double>(1.5, 2)); break;
      case 21: bp::move(d, bp::HORIZONTAL, 5); break;
      case 22: bp::move(d, -3, 7); break;
      case 23: bp::transform(d, bp::transformation<int>(bp::axis_transformation(bp::axis_transformation::ROTATE_LEFT), bp::point_data<int>(1, 2), bp::point_data<int>(5, 0))); break;
      case 24: bp::keep(d, 3, 30, 0, 6, 1, 9); break;
      case 25: bp::interact(d, std::vector<typename K::RH>(1, b)); break;
      case 26: bp::interact(d, sb); break;
      case 27: d += 2; break;
      case 28: d -= 1; break;
      case 29: bp::assign(d, u + 1); break;
      case 30: bp::assign(d, u - 1); break;
      case 31: bp::assign(d, sa + 2); break;
      case 32: bp::self_intersect(d); break;
      case 33: bp::self_xor(d); break;
      case 34: bp::move(d, bp::WEST, 4); break;
      default: bp::transform(d, bp::axis_transformation(bp::axis_transformation::FLIP_SWAP_XY));
    }
    dump90(d, o);
  }
  // connectivity and properties
  {
    bp::connectivity_extraction_90<int> ce;
    o("connectivity");
    o.put(ce.insert(a));
    o.put(ce.insert(b));
    o.put(ce.insert(ex));
    std::vector<std::set<int>> g(3);
    ce.extract(g);
    for (auto& s : g) {
      o.put(i64(s.size()));
      for (int i : s) o.put(i);
    }
    bp::property_merge_90<int, int> pm;
    pm.insert(a, 7);
    pm.insert(b, -2);
    std::map<std::set<int>, bp::polygon_90_set_data<int>> m;
    pm.merge(m);
    o("property_merge");
    for (auto& q : m) {
      for (int i : q.first) o.put(i);
      dump90(q.second, o);
    }
  }
}
template <class K>
void program45(const Ref& ra, const Ref& rb, Log& o) {
  typedef typename K::S45 S;
  typename K::FH a = build<typename K::FH>(ra), b = build<typename K::FH>(rb);
  S sa, sb;
  bp::assign(sa, a);
  bp::assign(sb, b);
  o("assigned");
  dump45(sa, o);
  dump45(sb, o);
  FOUR("polygons", S, dump45, a, b)
  FOUR("sets", S, dump45, sa, sb)
  FOUR("set and polygon", S, dump45, sa, b)
  FOUR("polygon and set", S, dump45, a, sb)
  SELF("set with polygon", S, dump45, sa, b)
  SELF("set with set", S, dump45, sa, sb)
  if (ra.holes.empty() && rb.holes.empty()) {
    typename K::F p = build<typename K::F>(ra), q = build<typename K::F>(rb);
    FOUR("polygons without holes", S, dump45, p, q)
    SELF("set with polygon without holes", S, dump45, sa, q)
  }
  typename K::Rc r = bp::construct<typename K::Rc>(0, 0, 0, 0);
  bp::extents(r, a);
  FOUR("set and rectangle", S, dump45, sb, r)
  FOUR("rectangle and polygon", S, dump45, r, b)
  SELF("set with rectangle", S, dump45, sb, r)
  o("equivalence");
  o.put(bp::equivalence(sa, sb));
  o.put(bp::equivalence(sa, a));
  o.put(bp::equivalence(sa, r));
  o.put(bp::equivalence(a, b));
  S u;
  bp::assign(u, a + b);
  {
    std::vector<typename K::F> v;
    bp::get_trapezoids(v, u);
    o("get_trapezoids");
    dumpSortedPolys(v, o);
    v.clear();
    bp::get_trapezoids(v, u, bp::VERTICAL);
    o("get_trapezoids vertical");
    dumpSortedPolys(v, o);
    v.clear();
    bp::assign(v, u);
    o("assign to polygons");
    dumpSortedPolys(v, o);
    o("vector of polygons");
    v ^= b;
    dumpSortedPolys(v, o);
    std::list<typename K::FH> x;
    bp::assign(x, u);
    o("assign to polygons with holes");
    dumpSortedPolys(x, o);
    x -= sb;
    o("list of polygons");
    dumpSortedPolys(x, o);
  }
  o("area");
  o.put(i64(2 * double(bp::area(u))));
  typename K::Rc ex = bp::construct<typename K::Rc>(0, 0, 0, 0);
  o("extents", bp::extents(ex, u));
  dumpRect(ex, o);
  o("empty", bp::empty(u));
  {
    S e;
    o("empty set", bp::empty(e));
    bp::assign(e, u);
    bp::clear(e);
    o("cleared", bp::empty(e));
  }
  for (int k = 0; k < 17; ++k) {
    S d;
    bp::assign(d, u);
    o("op", k);
    switch (k) {
      case 0: bp::bloat(d, 2u); break;
      case 1: bp::shrink(d, 1u); break;
      case 2: bp::resize(d, 3); break;
      case 3: bp::resize(d, -2); break;
      case 4: bp::grow_and(d, 2u); break;
      case 5: bp::scale_up(d, 2); break;
      case 6: bp::scale_down(d, 2); break;
      case 7: bp::scale(d, 3.0); break;
      case 8: bp::transform(d, bp::transformation<int>(bp::axis_transformation(bp::axis_transformation::ROTATE_LEFT), bp::point_data<int>(1, 2), bp::point_data<int>(5, 0))); break;
      case 9: bp::keep(d, 3, 30, 0, 6, 1, 9); break;
      case 10: bp::interact(d, std::vector<typename K::FH>(1, b)); break;
      case 11: bp::interact(d, sb); break;
      case 12: d += 2; break;
      case 13: d -= 1; break;
      case 14: bp::self_intersect(d); break;
      case 15: bp::self_xor(d); break;
      default: bp::transform(d, bp::axis_transformation(bp::axis_transformation::FLIP_SWAP_XY));
    }
    dump45(d, o);
  }
  {
    bp::connectivity_extraction_45<int> ce;
    o("connectivity");
    o.put(ce.insert(a));
    o.put(ce.insert(b));
    o.put(ce.insert(ex));
    std::vector<std::set<int>> g(3);
    ce.extract(g);
    for (auto& s : g) {
      o.put(i64(s.size()));
      for (int i : s) o.put(i);
    }
    bp::property_merge_45<int, int> pm;
    pm.insert(a, 7);
    pm.insert(b, -2);
    std::map<std::set<int>, bp::polygon_45_set_data<int>> m;
    pm.merge(m);
    o("property_merge");
    for (auto& q : m) {
      for (int i : q.first) o.put(i);
      dump45(q.second, o);
    }
  }
}
template <class K>
void programA(const Ref& ra, const Ref& rb, Log& o) {
  typedef typename K::SA S;
  typename K::AH a = build<typename K::AH>(ra), b = build<typename K::AH>(rb);
  S sa, sb;
  bp::assign(sa, a);
  bp::assign(sb, b);
  o("assigned");
  dumpA(sa, o);
  dumpA(sb, o);
  FOUR("polygons", S, dumpA, a, b)
  FOUR("sets", S, dumpA, sa, sb)
  FOUR("set and polygon", S, dumpA, sa, b)
  FOUR("polygon and set", S, dumpA, a, sb)
  SELF("set with polygon", S, dumpA, sa, b)
  SELF("set with set", S, dumpA, sa, sb)
  if (ra.holes.empty() && rb.holes.empty()) {
    typename K::A p = build<typename K::A>(ra), q = build<typename K::A>(rb);
    FOUR("polygons without holes", S, dumpA, p, q)
    SELF("set with polygon without holes", S, dumpA, sa, q)
  }
  typename K::Rc r = bp::construct<typename K::Rc>(0, 0, 0, 0);
  bp::extents(r, a);
  FOUR("set and rectangle", S, dumpA, sb, r)
  FOUR("rectangle and polygon", S, dumpA, r, b)
  SELF("set with rectangle", S, dumpA, sb, r)
  o("equivalence");
  o.put(bp::equivalence(sa, sb));
  o.put(bp::equivalence(sa, a));
  o.put(bp::equivalence(sa, r));
  o.put(bp::equivalence(a, b));
  S u;
  bp::assign(u, a + b);
  {
    std::vector<typename K::A> v;
    bp::get_trapezoids(v, u);
    o("get_trapezoids");
    dumpSortedPolys(v, o);
    v.clear();
    bp::get_trapezoids(v, u, bp::VERTICAL);
    o("get_trapezoids vertical");
    dumpSortedPolys(v, o);
    v.clear();
    bp::assign(v, u);
    o("assign to polygons");
    dumpSortedPolys(v, o);
    o("vector of polygons");
    v ^= b;
    dumpSortedPolys(v, o);
    std::list<typename K::AH> x;
    bp::assign(x, u);
    o("assign to polygons with holes");
    dumpSortedPolys(x, o);
    x -= sb;
    o("list of polygons");
    dumpSortedPolys(x, o);
  }
  o("area");
  o.put(i64(2 * double(bp::area(u))));
  typename K::Rc ex = bp::construct<typename K::Rc>(0, 0, 0, 0);
  o("extents", bp::extents(ex, u));
  dumpRect(ex, o);
  o("empty", bp::empty(u));
  {
    S e;
    o("empty set", bp::empty(e));
    bp::assign(e, u);
    bp::clear(e);
    o("cleared", bp::empty(e));
  }
  for (int k = 0; k < 14; ++k) {
    S d;
    bp::assign(d, u);
    o("op", k);
    switch (k) {
      case 0: bp::bloat(d, 2u); break;
      case 1: bp::shrink(d, 1u); break;
      case 2: bp::resize(d, 3); break;
      case 3: bp::resize(d, -2); break;
      case 4: bp::resize(d, 4, true, 8); break;
      case 5: bp::scale_up(d, 2); break;
      case 6: bp::scale_down(d, 2); break;
      case 7: bp::transform(d, bp::transformation<int>(bp::axis_transformation(bp::axis_transformation::ROTATE_LEFT), bp::point_data<int>(1, 2), bp::point_data<int>(5, 0))); break;
      case 8: bp::keep(d, 3, 30, 0, 6, 1, 9); break;
      case 9: bp::interact(d, std::vector<typename K::AH>(1, b)); break;
      case 10: bp::interact(d, sb); break;
      case 11: d += 2; break;
      case 12: d -= 1; break;
      default: bp::transform(d, bp::axis_transformation(bp::axis_transformation::FLIP_SWAP_XY));
    }
    dumpA(d, o);
  }
  {
    bp::connectivity_extraction<int> ce;
    o("connectivity");
    o.put(ce.insert(a));
    o.put(ce.insert(b));
    o.put(ce.insert(ex));
    std::vector<std::set<int>> g(3);
    ce.extract(g);
    for (auto& s : g) {
      o.put(i64(s.size()));
      for (int i : s) o.put(i);
    }
    bp::property_merge<int, int> pm;
    pm.insert(a, 7);
    pm.insert(b, -2);
    std::map<std::set<int>, bp::polygon_set_data<int>> m;
    pm.merge(m);
    o("property_merge");
    for (auto& q : m) {
      for (int i : q.first) o.put(i);
      dumpA(q.second, o);
    }
  }
}
std::vector<Ref> shapes(const std::vector<i64>& X, const std::vector<i64>& Y, int k, cyc::Kind kind, bool holes) {
  std::vector<Ref> r;
  auto cs = cyc::cycles(X, Y, k, kind, false);
  for (auto& l : cs) {
    Ref q;
    q.shell = l;
    r.push_back(q);
  }
  if (holes) {
    i64 a = X[0], b = X.back(), c = Y[0], d = Y.back();
    for (size_t i = 0; i < cs.size(); i += 1 + cs.size() / 6) {
      Ref q;
      q.shell = Loop{{a - 2, c - 2}, {b + 2, c - 2}, {b + 2, d + 2}, {a - 2, d + 2}};
      q.holes.push_back(cyc::variant(cs[i], 1, true, false));
      r.push_back(q);
    }
  }
  return r;
}
// kind 2: rectilinear sets, 1: 45-degree sets, 0: arbitrary sets; holes: also
// shapes with a hole
void family(mc::Engine& e, const std::string& nm, int kind, const std::vector<i64>& X, const std::vector<i64>& Y, int k, bool holes) {
  auto v = std::make_shared<std::vector<Ref>>(shapes(X, Y, k, kind == 2 ? cyc::RECT : kind == 1 ? cyc::K45 : cyc::ANY, holes));
  u64 n = v->size();
  e.add(nm, n * n, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    Ref a = (*v)[d.take(n)], b = (*v)[d.take(n)];
    // every vertex order in turn: the programs run with four user packs
    if (c.verbose) c.input(arr::show(a.shell) + (a.holes.empty() ? "" : " hole " + arr::show(a.holes)) + " and " + arr::show(b.shell) + (b.holes.empty() ? "" : " hole " + arr::show(b.holes)));
    if (i % 2) b.shell = cyc::variant(b.shell, 1, true, false);
    c.state(i);
    Log s;
    auto run = [&](auto pack, Log& l) {
      typedef decltype(pack) K;
      if (kind == 2)
        program90<K>(a, b, l);
      else if (kind == 1)
        program45<K>(a, b, l);
      else
        programA<K>(a, b, l);
    };
    run(Std(), s);
    u64 h = kind;
    for (i64 x : s.v) h = mc::mix(h, u64(x));
    c.nontrivial(h);
    Log u, w, q;
    run(UserEdges(), q);
    s.compare(q, c, "user sets of edges");
    run(User<0>(), u);
    s.compare(u, c, "user types");
    run(User<3>(), w);
    s.compare(w, c, "user types (closed, known winding)");
    c.step(2);
  });
}
}  // namespace
MC_REGISTER(e) {
  std::vector<i64> g{0, 2, 5}, g4{0, 3, 4, 8}, ev{0, 4, 8}, lat{0, 20, 44};
  family(e, "rect_3x3", 2, g, g, 8, true);
  family(e, "rect_4x4", 2, g4, g, e.thorough() ? 10 : 6, true);
  family(e, "f45_3x3", 1, ev, ev, e.thorough() ? 5 : 4, true);
  family(e, "any_3x3", 0, lat, lat, e.thorough() ? 4 : 3, true);
}
