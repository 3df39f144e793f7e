// Conversions between the arrangement model and the library's polygon types.
#ifndef VERIF_ARRLIB_HPP
#define VERIF_ARRLIB_HPP
#include <boost/polygon/polygon.hpp>
#include "arr.hpp"
namespace arr {
namespace bp = boost::polygon;
typedef bp::polygon_data<int> PD;
typedef bp::polygon_with_holes_data<int> PH;
typedef bp::polygon_set_data<int> PS;
typedef bp::point_data<int> Pt;

inline std::vector<Pt> pts(const Loop& l) {
  std::vector<Pt> v;
  for (auto& p : l) v.push_back(Pt(int(p.x), int(p.y)));
  return v;
}
template <class T>
T mkpoly(const Loop& l) {
  std::vector<Pt> v = pts(l);
  T t;
  bp::set_points(t, v.begin(), v.end());
  return t;
}
inline PD poly(const Loop& l) { return mkpoly<PD>(l); }
template <class H, class D>
H withHoles(const Loop& l, const std::vector<Loop>& holes) {
  H h = mkpoly<H>(l);
  std::vector<D> v;
  for (auto& x : holes) v.push_back(mkpoly<D>(x));
  bp::set_holes(h, v.begin(), v.end());
  return h;
}
template <class T>
Loop loopOf(const T& t) {
  Loop l;
  for (auto it = bp::begin_points(t); it != bp::end_points(t); ++it) l.push_back(P{i64((*it).x()), i64((*it).y())});
  return open(l);
}
template <class V>
std::vector<Poly> readH(const V& v) {
  std::vector<Poly> r;
  for (auto& p : v) {
    Poly q;
    q.shell = loopOf(p);
    for (auto it = bp::begin_holes(p); it != bp::end_holes(p); ++it) q.holes.push_back(loopOf(*it));
    r.push_back(q);
  }
  return r;
}
template <class V>
std::vector<Poly> readD(const V& v) {
  std::vector<Poly> r;
  for (auto& p : v) {
    Poly q;
    q.shell = loopOf(p);
    r.push_back(q);
  }
  return r;
}
template <class S>
std::vector<Poly> read(const S& ps) {
  std::vector<PH> v;
  ps.get(v);
  return readH(v);
}
}  // namespace arr
#endif
