// User-defined polygons and polygon sets of every concept, adapted only through
// the documented traits.  Vertices are kept back to front and complemented.
#ifndef VERIF_CPOLY_HPP
#define VERIF_CPOLY_HPP
#include "cust.hpp"
#include <deque>
#include <list>
#include <vector>

namespace cust {
// none of these has a type of the library among its template arguments: nothing
// of boost::polygon may be found through argument-dependent lookup only.
// C: 0 arbitrary, 1 45-degree (2 rectilinear, sets only); F bit 0: keeps the first vertex again at the end, bit 1: knows its
// winding
template <class T, int C, int F>
struct Pg {
  typedef T coord;
  std::list<Pt<T> > back;
};
template <class T, int C, int F>
struct PgH {
  typedef T coord;
  std::list<Pt<T> > back;
  std::deque<Pg<T, C, F> > holes;
};
// rectilinear, as alternating coordinates, back to front
template <class T, int F>
struct Pc {
  typedef T coord;
  std::vector<T> back;
};
template <class T, int F>
struct PcH {
  typedef T coord;
  std::vector<T> back;
  std::list<Pc<T, F> > holes;
};
// polygon sets: a container of the user's polygons
template <class P, int C>
struct Set {
  std::deque<P> ps;
};

// sets kept as bare edges: rectilinear ones scanned vertically
struct Edges90 {
  typedef std::pair<int, std::pair<int, int> > E;
  std::list<E> es;
};
struct Edges45 {
  typedef boost::polygon::polygon_45_set_data<int>::value_type::value_type E;
  std::deque<E> es;
};
struct EdgesA {
  typedef std::pair<std::pair<boost::polygon::point_data<int>, boost::polygon::point_data<int> >, int> E;
  std::list<E> es;
};

template <class T>
struct PolyBase {
  typedef typename T::coord coordinate_type;
  typedef Pt<coordinate_type> point_type;
  typedef typename std::list<point_type>::const_reverse_iterator iterator_type;
  static iterator_type begin_points(const T& t) { return t.back.rbegin(); }
  static iterator_type end_points(const T& t) { return t.back.rend(); }
  static std::size_t size(const T& t) { return t.back.size(); }
  template <class It>
  static T& store(T& t, It b, It e, bool closed) {
    t.back.clear();
    for (; b != e; ++b) t.back.push_front(point_type::make(boost::polygon::x(*b), boost::polygon::y(*b)));
    while (t.back.size() > 1 && t.back.front() == t.back.back()) t.back.pop_front();
    if (closed && t.back.size()) t.back.push_front(point_type(t.back.back()));
    return t;
  }
  static boost::polygon::winding_direction wind(const T& t) {
    long double a = 0;
    std::vector<point_type> v(t.back.rbegin(), t.back.rend());
    for (std::size_t i = 0; i < v.size(); ++i) {
      const point_type &p = v[i], &q = v[(i + 1) % v.size()];
      a += (long double)p.getx() * q.gety() - (long double)q.getx() * p.gety();
    }
    return a > 0 ? boost::polygon::counterclockwise_winding : a < 0 ? boost::polygon::clockwise_winding : boost::polygon::unknown_winding;
  }
};
template <class T>
struct CompactBase {
  typedef typename T::coord coordinate_type;
  typedef typename std::vector<coordinate_type>::const_reverse_iterator compact_iterator_type;
  static compact_iterator_type begin_compact(const T& t) { return t.back.rbegin(); }
  static compact_iterator_type end_compact(const T& t) { return t.back.rend(); }
  static std::size_t size(const T& t) { return t.back.size(); }
  template <class It>
  static T& store(T& t, It b, It e) {
    std::vector<coordinate_type> v;
    for (; b != e; ++b) v.push_back(*b);
    t.back.assign(v.rbegin(), v.rend());
    return t;
  }
  static boost::polygon::winding_direction wind(const T& t) {
    std::vector<coordinate_type> v(t.back.rbegin(), t.back.rend());
    long double a = 0;
    std::size_t n = v.size();
    // vertices (v0,v1) (v2,v1) (v2,v3) ... : sum of y dx over horizontal edges
    for (std::size_t i = 1; i < n; i += 2) a -= (long double)v[i] * ((long double)v[(i + 1) % n] - v[i - 1]);
    return a > 0 ? boost::polygon::counterclockwise_winding : a < 0 ? boost::polygon::clockwise_winding : boost::polygon::unknown_winding;
  }
};
template <int C>
struct Concepts;
template <>
struct Concepts<0> {
  typedef boost::polygon::polygon_concept polygon;
  typedef boost::polygon::polygon_with_holes_concept holes;
  typedef boost::polygon::polygon_set_concept set;
};
template <>
struct Concepts<1> {
  typedef boost::polygon::polygon_45_concept polygon;
  typedef boost::polygon::polygon_45_with_holes_concept holes;
  typedef boost::polygon::polygon_45_set_concept set;
};
template <>
struct Concepts<2> {
  typedef boost::polygon::polygon_90_set_concept set;
};
template <class T>
struct FlagOf;
template <class T, int C, int F>
struct FlagOf<Pg<T, C, F> > {
  static const int f = F;
};
template <class T, int C, int F>
struct FlagOf<PgH<T, C, F> > {
  static const int f = F;
};
}  // namespace cust

namespace boost {
namespace polygon {
template <class T, int C, int F>
struct geometry_concept<cust::Pg<T, C, F> > {
  typedef typename cust::Concepts<C>::polygon type;
};
template <class T, int C, int F>
struct geometry_concept<cust::PgH<T, C, F> > {
  typedef typename cust::Concepts<C>::holes type;
};
// the library's own partial specialisations match every type of the concept, so
// these have to be explicit
#define CUST_TRAITS(...)                                                                                                          \
  template <>                                                                                                                     \
  struct polygon_traits<__VA_ARGS__, gtl_yes> : cust::PolyBase<__VA_ARGS__> {                                                     \
    static winding_direction winding(const __VA_ARGS__& t) {                                                                      \
      return cust::FlagOf<__VA_ARGS__>::f & 2 ? cust::PolyBase<__VA_ARGS__>::wind(t) : winding_direction(unknown_winding);        \
    }                                                                                                                             \
  };
#define CUST_TRAITS4(C)           \
  CUST_TRAITS(cust::Pg<int, C, 0>)  \
  CUST_TRAITS(cust::Pg<int, C, 1>)  \
  CUST_TRAITS(cust::Pg<int, C, 2>)  \
  CUST_TRAITS(cust::Pg<int, C, 3>)  \
  CUST_TRAITS(cust::PgH<int, C, 0>) \
  CUST_TRAITS(cust::PgH<int, C, 1>) \
  CUST_TRAITS(cust::PgH<int, C, 2>) \
  CUST_TRAITS(cust::PgH<int, C, 3>)
CUST_TRAITS4(0)
CUST_TRAITS4(1)
template <class T, int C, int F>
struct polygon_mutable_traits<cust::Pg<T, C, F> > {
  template <class It>
  static cust::Pg<T, C, F>& set_points(cust::Pg<T, C, F>& t, It b, It e) {
    return cust::PolyBase<cust::Pg<T, C, F> >::store(t, b, e, F & 1);
  }
};
template <class T, int C, int F>
struct polygon_mutable_traits<cust::PgH<T, C, F> > {
  template <class It>
  static cust::PgH<T, C, F>& set_points(cust::PgH<T, C, F>& t, It b, It e) {
    return cust::PolyBase<cust::PgH<T, C, F> >::store(t, b, e, F & 1);
  }
};
template <class T, int C, int F>
struct polygon_with_holes_traits<cust::PgH<T, C, F> > {
  typedef cust::Pg<T, C, F> hole_type;
  typedef typename std::deque<hole_type>::const_iterator iterator_holes_type;
  static iterator_holes_type begin_holes(const cust::PgH<T, C, F>& t) { return t.holes.begin(); }
  static iterator_holes_type end_holes(const cust::PgH<T, C, F>& t) { return t.holes.end(); }
  static std::size_t size_holes(const cust::PgH<T, C, F>& t) { return t.holes.size(); }
};
template <class T, int C, int F>
struct polygon_with_holes_mutable_traits<cust::PgH<T, C, F> > {
  template <class It>
  static cust::PgH<T, C, F>& set_holes(cust::PgH<T, C, F>& t, It b, It e) {
    std::deque<cust::Pg<T, C, F> > h;
    for (; b != e; ++b) {
      h.push_back(cust::Pg<T, C, F>());
      assign(h.back(), *b);
    }
    t.holes.swap(h);
    return t;
  }
};

template <class T, int F>
struct geometry_concept<cust::Pc<T, F> > {
  typedef polygon_90_concept type;
};
template <class T, int F>
struct polygon_90_traits<cust::Pc<T, F>, gtl_yes> : cust::CompactBase<cust::Pc<T, F> > {
  static winding_direction winding(const cust::Pc<T, F>& t) { return F & 2 ? cust::CompactBase<cust::Pc<T, F> >::wind(t) : winding_direction(unknown_winding); }
};
template <class T, int F>
struct polygon_90_mutable_traits<cust::Pc<T, F> > {
  template <class It>
  static cust::Pc<T, F>& set_compact(cust::Pc<T, F>& t, It b, It e) {
    return cust::CompactBase<cust::Pc<T, F> >::store(t, b, e);
  }
};
template <class T, int F>
struct polygon_mutable_traits<cust::Pc<T, F> > {
  template <class It>
  static cust::Pc<T, F>& set_points(cust::Pc<T, F>& t, It b, It e) {
    typedef iterator_points_to_compact<It, point_data<T> > ct;
    return cust::CompactBase<cust::Pc<T, F> >::store(t, ct(b, e), ct(e, e));
  }
};
template <class T, int F>
struct geometry_concept<cust::PcH<T, F> > {
  typedef polygon_90_with_holes_concept type;
};
template <class T, int F>
struct polygon_90_traits<cust::PcH<T, F>, gtl_yes> : cust::CompactBase<cust::PcH<T, F> > {
  static winding_direction winding(const cust::PcH<T, F>& t) { return F & 2 ? cust::CompactBase<cust::PcH<T, F> >::wind(t) : winding_direction(unknown_winding); }
};
template <class T, int F>
struct polygon_90_mutable_traits<cust::PcH<T, F> > {
  template <class It>
  static cust::PcH<T, F>& set_compact(cust::PcH<T, F>& t, It b, It e) {
    return cust::CompactBase<cust::PcH<T, F> >::store(t, b, e);
  }
};
template <class T, int F>
struct polygon_mutable_traits<cust::PcH<T, F> > {
  template <class It>
  static cust::PcH<T, F>& set_points(cust::PcH<T, F>& t, It b, It e) {
    typedef iterator_points_to_compact<It, point_data<T> > ct;
    return cust::CompactBase<cust::PcH<T, F> >::store(t, ct(b, e), ct(e, e));
  }
};
template <class T, int F>
struct polygon_with_holes_traits<cust::PcH<T, F> > {
  typedef cust::Pc<T, F> hole_type;
  typedef typename std::list<hole_type>::const_iterator iterator_holes_type;
  static iterator_holes_type begin_holes(const cust::PcH<T, F>& t) { return t.holes.begin(); }
  static iterator_holes_type end_holes(const cust::PcH<T, F>& t) { return t.holes.end(); }
  static std::size_t size_holes(const cust::PcH<T, F>& t) { return t.holes.size(); }
};
template <class T, int F>
struct polygon_with_holes_mutable_traits<cust::PcH<T, F> > {
  template <class It>
  static cust::PcH<T, F>& set_holes(cust::PcH<T, F>& t, It b, It e) {
    std::list<cust::Pc<T, F> > h;
    for (; b != e; ++b) {
      h.push_back(cust::Pc<T, F>());
      assign(h.back(), *b);
    }
    t.holes.swap(h);
    return t;
  }
};

// --- sets
template <class P, int C>
struct geometry_concept<cust::Set<P, C> > {
  typedef typename cust::Concepts<C>::set type;
};
template <class P>
struct polygon_90_set_traits<cust::Set<P, 2> > {
  typedef cust::Set<P, 2> S;
  typedef typename P::coord coordinate_type;
  typedef typename std::deque<P>::const_iterator iterator_type;
  typedef S operator_arg_type;
  static iterator_type begin(const S& s) { return s.ps.begin(); }
  static iterator_type end(const S& s) { return s.ps.end(); }
  static orientation_2d orient(const S&) { return HORIZONTAL; }
  static bool clean(const S&) { return false; }
  static bool sorted(const S&) { return false; }
};
template <class P>
struct polygon_90_set_mutable_traits<cust::Set<P, 2> > {
  typedef cust::Set<P, 2> S;
  template <class It>
  static void set(S& s, It b, It e, orientation_2d o) {
    polygon_90_set_data<typename P::coord> ps(o);
    ps.insert(b, e, o);
    s.ps.clear();
    ps.get(s.ps);
  }
};
template <class P>
struct polygon_45_set_traits<cust::Set<P, 1> > {
  typedef cust::Set<P, 1> S;
  typedef typename P::coord coordinate_type;
  typedef typename std::deque<P>::const_iterator iterator_type;
  typedef S operator_arg_type;
  static iterator_type begin(const S& s) { return s.ps.begin(); }
  static iterator_type end(const S& s) { return s.ps.end(); }
  static bool clean(const S&) { return false; }
  static bool sorted(const S&) { return false; }
};
template <class P>
struct polygon_45_set_mutable_traits<cust::Set<P, 1> > {
  typedef cust::Set<P, 1> S;
  template <class It>
  static void set(S& s, It b, It e) {
    polygon_45_set_data<typename P::coord> ps;
    ps.insert(b, e);
    s.ps.clear();
    ps.get(s.ps);
  }
};
template <class P>
struct polygon_set_traits<cust::Set<P, 0> > {
  typedef cust::Set<P, 0> S;
  typedef typename P::coord coordinate_type;
  typedef typename std::deque<P>::const_iterator iterator_type;
  typedef S operator_arg_type;
  static iterator_type begin(const S& s) { return s.ps.begin(); }
  static iterator_type end(const S& s) { return s.ps.end(); }
  static bool clean(const S&) { return false; }
  static bool sorted(const S&) { return false; }
};
template <class P>
struct polygon_set_mutable_traits<cust::Set<P, 0> > {
  typedef cust::Set<P, 0> S;
  template <class It>
  static void set(S& s, It b, It e) {
    polygon_set_data<typename P::coord> ps;
    ps.insert(b, e);
    s.ps.clear();
    ps.get(s.ps);
  }
};

template <>
struct geometry_concept<cust::Edges90> {
  typedef polygon_90_set_concept type;
};
template <>
struct polygon_90_set_traits<cust::Edges90> {
  typedef int coordinate_type;
  typedef std::list<cust::Edges90::E>::const_iterator iterator_type;
  typedef cust::Edges90 operator_arg_type;
  static iterator_type begin(const cust::Edges90& s) { return s.es.begin(); }
  static iterator_type end(const cust::Edges90& s) { return s.es.end(); }
  static orientation_2d orient(const cust::Edges90&) { return VERTICAL; }
  static bool clean(const cust::Edges90&) { return false; }
  static bool sorted(const cust::Edges90&) { return false; }
};
template <>
struct polygon_90_set_mutable_traits<cust::Edges90> {
  template <class It>
  static void set(cust::Edges90& s, It b, It e, orientation_2d o) {
    polygon_90_set_data<int> in(o), ps(VERTICAL);
    in.insert(b, e, o);
    ps.insert(in);
    ps.clean();
    s.es.assign(ps.begin(), ps.end());
    s.es.reverse();
  }
};
template <>
struct geometry_concept<cust::Edges45> {
  typedef polygon_45_set_concept type;
};
template <>
struct polygon_45_set_traits<cust::Edges45> {
  typedef int coordinate_type;
  typedef std::deque<cust::Edges45::E>::const_reverse_iterator iterator_type;
  typedef cust::Edges45 operator_arg_type;
  static iterator_type begin(const cust::Edges45& s) { return s.es.rbegin(); }
  static iterator_type end(const cust::Edges45& s) { return s.es.rend(); }
  static bool clean(const cust::Edges45&) { return false; }
  static bool sorted(const cust::Edges45&) { return false; }
};
template <>
struct polygon_45_set_mutable_traits<cust::Edges45> {
  template <class It>
  static void set(cust::Edges45& s, It b, It e) {
    polygon_45_set_data<int> in;
    in.insert(b, e);
    in.clean();
    s.es.assign(in.begin(), in.end());
  }
};
template <>
struct geometry_concept<cust::EdgesA> {
  typedef polygon_set_concept type;
};
template <>
struct polygon_set_traits<cust::EdgesA> {
  typedef int coordinate_type;
  typedef std::list<cust::EdgesA::E>::const_reverse_iterator iterator_type;
  typedef cust::EdgesA operator_arg_type;
  static iterator_type begin(const cust::EdgesA& s) { return s.es.rbegin(); }
  static iterator_type end(const cust::EdgesA& s) { return s.es.rend(); }
  static bool clean(const cust::EdgesA&) { return false; }
  static bool sorted(const cust::EdgesA&) { return false; }
};
template <>
struct polygon_set_mutable_traits<cust::EdgesA> {
  template <class It>
  static void set(cust::EdgesA& s, It b, It e) {
    polygon_set_data<int> in;
    in.insert(b, e);
    in.clean();
    s.es.assign(in.begin(), in.end());
  }
};
}  // namespace polygon
}  // namespace boost
#endif
