// Type packs and result logs for the generic programs of C32.
#ifndef VERIF_C32_HPP
#define VERIF_C32_HPP
#include "cpoly.hpp"
#include "cyc.hpp"
#include "mc.hpp"
#include <boost/polygon/polygon.hpp>
#include <memory>
namespace c32 {
namespace bp = boost::polygon;
using namespace cyc;
typedef mc::u64 u64;
struct Ref {
  Loop shell;
  std::vector<Loop> holes;
};
struct Std {
  typedef bp::point_data<int> Pt;
  typedef bp::interval_data<int> Iv;
  typedef bp::rectangle_data<int> Rc;
  typedef bp::segment_data<int> Sg;
  typedef bp::polygon_data<int> A;
  typedef bp::polygon_with_holes_data<int> AH;
  typedef bp::polygon_45_data<int> F;
  typedef bp::polygon_45_with_holes_data<int> FH;
  typedef bp::polygon_90_data<int> R;
  typedef bp::polygon_90_with_holes_data<int> RH;
  typedef bp::polygon_90_set_data<int> S90;
  typedef bp::polygon_45_set_data<int> S45;
  typedef bp::polygon_set_data<int> SA;
};
template <int FL>
struct User {
  typedef cust::Pt<int> Pt;
  typedef cust::Iv<int> Iv;
  typedef cust::Rc<int> Rc;
  typedef cust::Sg<int> Sg;
  typedef cust::Pg<int, 0, FL> A;
  typedef cust::PgH<int, 0, FL> AH;
  typedef cust::Pg<int, 1, FL> F;
  typedef cust::PgH<int, 1, FL> FH;
  typedef cust::Pc<int, FL> R;
  typedef cust::PcH<int, FL> RH;
  typedef cust::Set<RH, 2> S90;
  typedef cust::Set<FH, 1> S45;
  typedef cust::Set<AH, 0> SA;
};
// user polygons, sets kept as bare edges
struct UserEdges : User<1> {
  typedef cust::Edges90 S90;
  typedef cust::Edges45 S45;
  typedef cust::EdgesA SA;
};
struct Log {
  std::vector<i64> v;
  std::vector<std::pair<size_t, std::string>> at;
  void operator()(const char* n) { at.push_back(std::make_pair(v.size(), std::string(n))); }
  void operator()(const char* n, i64 x) {
    (*this)(n);
    v.push_back(x);
  }
  void put(i64 x) { v.push_back(x); }
  std::string name(size_t i) const {
    std::string r;
    for (auto& a : at)
      if (a.first <= i) r = a.second;
    // maps carry their number as the first value
    return r;
  }
  // this: the library's types; o: the user's
  void compare(const Log& o, mc::Case& c, const std::string& what) const {
    if (v == o.v) return;
    size_t i = 0;
    while (i < v.size() && i < o.v.size() && v[i] == o.v[i]) ++i;
    std::ostringstream s;
    s << what << ": value " << i << " (" << name(i) << ") is " << (i < o.v.size() ? std::to_string(o.v[i]) : "missing") << " with the user's types and " << (i < v.size() ? std::to_string(v[i]) : "missing") << " with the library's;";
    for (size_t k = i < 8 ? 0 : i - 8; k < i + 12; ++k) s << (k == i ? " | " : " ") << (k < o.v.size() ? std::to_string(o.v[k]) : "-") << "/" << (k < v.size() ? std::to_string(v[k]) : "-");
    c.fail("differs", s.str());
  }
};
template <class T>
struct Is {
  typedef typename bp::geometry_concept<T>::type G;
  static const bool holes = std::is_same<G, bp::polygon_with_holes_concept>::value || std::is_same<G, bp::polygon_45_with_holes_concept>::value || std::is_same<G, bp::polygon_90_with_holes_concept>::value;
};
template <class P>
void dumpPoint(const P& p, Log& o) {
  o.put(bp::x(p));
  o.put(bp::y(p));
}
template <class R>
void dumpRect(const R& r, Log& o) {
  for (i64 v : {i64(bp::xl(r)), i64(bp::yl(r)), i64(bp::xh(r)), i64(bp::yh(r))}) o.put(v);
}
// vertex cycle without repeated neighbours, from its lowest vertex, as wound
template <class T>
Loop loop(const T& t) {
  Loop l, r;
  for (auto it = bp::begin_points(t); it != bp::end_points(t); ++it) {
    P p{i64(bp::x(*it)), i64(bp::y(*it))};
    if (r.empty() || r.back() != p) r.push_back(p);
  }
  while (r.size() > 1 && r.back() == r[0]) r.pop_back();
  size_t k = 0;
  for (size_t i = 1; i < r.size(); ++i)
    if (std::make_pair(r[i].x, r[i].y) < std::make_pair(r[k].x, r[k].y)) k = i;
  for (size_t i = 0; i < r.size(); ++i) l.push_back(r[(k + i) % r.size()]);
  return l;
}
inline void dumpLoop(const Loop& l, Log& o) {
  o.put(i64(l.size()));
  for (auto& p : l) o.put(p.x), o.put(p.y);
}
template <class T, bool H = Is<T>::holes>
struct Holes {
  static void dump(const T&, Log&) {}
  static void set(T&, const Ref&) {}
};
template <class T>
struct Holes<T, true> {
  static void dump(const T& t, Log& o) {
    o.put(i64(bp::size_holes(t)));
    std::vector<Loop> h;
    for (auto it = bp::begin_holes(t); it != bp::end_holes(t); ++it) h.push_back(loop(*it));
    std::sort(h.begin(), h.end(), [](const Loop& a, const Loop& b) {
      return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](const P& p, const P& q) { return std::make_pair(p.x, p.y) < std::make_pair(q.x, q.y); });
    });
    for (auto& l : h) dumpLoop(l, o);
  }
  static void set(T& t, const Ref& r) {
    typedef typename bp::polygon_with_holes_traits<T>::hole_type HT;
    std::vector<HT> h;
    for (auto& l : r.holes) {
      std::vector<bp::point_data<int>> v;
      for (auto& p : l) v.push_back(bp::point_data<int>(int(p.x), int(p.y)));
      h.push_back(HT());
      bp::set_points(h.back(), v.begin(), v.end());
    }
    bp::set_holes(t, h.begin(), h.end());
  }
};
template <class T>
void dump(const T& t, Log& o) {
  dumpLoop(loop(t), o);
  Holes<T>::dump(t, o);
}
template <class T>
T build(const Ref& r) {
  std::vector<bp::point_data<int>> v;
  for (auto& p : r.shell) v.push_back(bp::point_data<int>(int(p.x), int(p.y)));
  T t;
  bp::set_points(t, v.begin(), v.end());
  Holes<T>::set(t, r);
  return t;
}
template <class D, class S>
void to(const S& s, Log& o, const char* nm) {
  D d;
  bp::assign(d, s);
  o(nm);
  dump(d, o);
}
// every assignment allowed by refinement, D: destination types, S: source types
template <class D, class S>
void assigns(const Ref& r, int kind, Log& o) {
  bool h = !r.holes.empty();
  if (!h) {
    typename S::A a = build<typename S::A>(r);
    to<typename D::A>(a, o, "A from A");
    to<typename D::AH>(a, o, "AH from A");
  }
  typename S::AH ah = build<typename S::AH>(r);
  to<typename D::AH>(ah, o, "AH from AH");
  if (!h) to<typename D::A>(bp::view_as<bp::polygon_concept>(ah), o, "A from AH as A");
  if (kind == 0) return;
  if (!h) {
    typename S::F f = build<typename S::F>(r);
    to<typename D::A>(f, o, "A from F");
    to<typename D::F>(f, o, "F from F");
    to<typename D::AH>(f, o, "AH from F");
    to<typename D::FH>(f, o, "FH from F");
    to<typename D::F>(bp::view_as<bp::polygon_45_concept>(build<typename S::A>(r)), o, "F from A as F");
  }
  typename S::FH fh = build<typename S::FH>(r);
  to<typename D::AH>(fh, o, "AH from FH");
  to<typename D::FH>(fh, o, "FH from FH");
  to<typename D::FH>(bp::view_as<bp::polygon_45_with_holes_concept>(ah), o, "FH from AH as FH");
  if (kind == 1) return;
  if (!h) {
    typename S::R q = build<typename S::R>(r);
    to<typename D::A>(q, o, "A from R");
    to<typename D::F>(q, o, "F from R");
    to<typename D::R>(q, o, "R from R");
    to<typename D::AH>(q, o, "AH from R");
    to<typename D::FH>(q, o, "FH from R");
    to<typename D::RH>(q, o, "RH from R");
    to<typename D::R>(bp::view_as<bp::polygon_90_concept>(build<typename S::F>(r)), o, "R from F as R");
    to<typename D::R>(bp::view_as<bp::polygon_90_concept>(build<typename S::A>(r)), o, "R from A as R");
    if (loop(q).size() == 4) {
      typename D::Rc d = bp::construct<typename D::Rc>(0, 0, 0, 0);
      bp::assign(d, bp::view_as<bp::rectangle_concept>(q));
      o("rectangle");
      dumpRect(d, o);
      typename S::Rc s = bp::construct<typename S::Rc>(int(bp::xl(d)), int(bp::yl(d)), int(bp::xh(d)), int(bp::yh(d)));
      to<typename D::A>(s, o, "A from rectangle");
      to<typename D::F>(s, o, "F from rectangle");
      to<typename D::R>(s, o, "R from rectangle");
      to<typename D::AH>(s, o, "AH from rectangle");
      to<typename D::FH>(s, o, "FH from rectangle");
      to<typename D::RH>(s, o, "RH from rectangle");
    }
  }
  typename S::RH qh = build<typename S::RH>(r);
  to<typename D::RH>(qh, o, "RH from RH");
  to<typename D::RH>(bp::view_as<bp::polygon_90_with_holes_concept>(ah), o, "RH from AH as RH");
}
}  // namespace c32
#endif
