// User-defined geometry types, adapted only through the documented traits.
// Storage deliberately differs from the library's own types.
#ifndef VERIF_CUST_HPP
#define VERIF_CUST_HPP
#include <boost/polygon/polygon.hpp>

namespace cust {
namespace bp = boost::polygon;

// coordinates stored negated and swapped
template <class T>
struct Pt {
  T ny, nx;
  static Pt make(T x, T y) {
    Pt p;
    p.nx = T(~x);
    p.ny = T(~y);
    return p;
  }
  T getx() const { return T(~nx); }
  T gety() const { return T(~ny); }
  // segment_concept's equivalence uses operator== of the point type
  bool operator==(const Pt& o) const { return nx == o.nx && ny == o.ny; }
  bool operator!=(const Pt& o) const { return !(*this == o); }
};
// stored as high, ~low
template <class T>
struct Iv {
  T hi, nlo;
};
template <class T>
struct Rc {
  T top, right, bottom, left;
};
template <class T>
struct Sg {
  Pt<T> b, a;  // high first
};
}  // namespace cust

namespace boost {
namespace polygon {
template <class T>
struct geometry_concept<cust::Pt<T> > {
  typedef point_concept type;
};
template <class T>
struct point_traits<cust::Pt<T> > {
  typedef T coordinate_type;
  static T get(const cust::Pt<T>& p, orientation_2d o) { return o == HORIZONTAL ? p.getx() : p.gety(); }
};
template <class T>
struct point_mutable_traits<cust::Pt<T> > {
  typedef T coordinate_type;
  static void set(cust::Pt<T>& p, orientation_2d o, T v) {
    if (o == HORIZONTAL)
      p.nx = T(~v);
    else
      p.ny = T(~v);
  }
  static cust::Pt<T> construct(T x, T y) { return cust::Pt<T>::make(x, y); }
};

template <class T>
struct geometry_concept<cust::Iv<T> > {
  typedef interval_concept type;
};
template <class T>
struct interval_traits<cust::Iv<T> > {
  typedef T coordinate_type;
  static T get(const cust::Iv<T>& i, direction_1d d) { return d == HIGH ? i.hi : T(~i.nlo); }
};
template <class T>
struct interval_mutable_traits<cust::Iv<T> > {
  typedef T coordinate_type;
  static void set(cust::Iv<T>& i, direction_1d d, T v) {
    if (d == HIGH)
      i.hi = v;
    else
      i.nlo = T(~v);
  }
  static cust::Iv<T> construct(T lo, T hi) {
    cust::Iv<T> i;
    i.hi = hi;
    i.nlo = T(~lo);
    return i;
  }
};

template <class T>
struct geometry_concept<cust::Rc<T> > {
  typedef rectangle_concept type;
};
template <class T>
struct rectangle_traits<cust::Rc<T>, gtl_yes> {
  typedef T coordinate_type;
  typedef interval_data<T> interval_type;
  static interval_type get(const cust::Rc<T>& r, orientation_2d o) {
    return o == HORIZONTAL ? interval_type(r.left, r.right) : interval_type(r.bottom, r.top);
  }
};
template <class T>
struct rectangle_mutable_traits<cust::Rc<T> > {
  template <class I>
  static void set(cust::Rc<T>& r, orientation_2d o, const I& i) {
    if (o == HORIZONTAL)
      r.left = bp_low(i), r.right = bp_high(i);
    else
      r.bottom = bp_low(i), r.top = bp_high(i);
  }
  template <class I1, class I2>
  static cust::Rc<T> construct(const I1& h, const I2& v) {
    cust::Rc<T> r;
    set(r, HORIZONTAL, h);
    set(r, VERTICAL, v);
    return r;
  }
  template <class I>
  static T bp_low(const I& i) {
    return boost::polygon::get(i, LOW);
  }
  template <class I>
  static T bp_high(const I& i) {
    return boost::polygon::get(i, HIGH);
  }
};

template <class T>
struct geometry_concept<cust::Sg<T> > {
  typedef segment_concept type;
};
template <class T>
struct segment_traits<cust::Sg<T> > {
  typedef T coordinate_type;
  typedef cust::Pt<T> point_type;
  static point_type get(const cust::Sg<T>& s, direction_1d d) { return d == HIGH ? s.b : s.a; }
};
template <class T>
struct segment_mutable_traits<cust::Sg<T> > {
  typedef T coordinate_type;
  typedef cust::Pt<T> point_type;
  template <class P>
  static point_type conv(const P& p) {
    return point_type::make(x(p), y(p));
  }
  template <class P>
  static void set(cust::Sg<T>& s, direction_1d d, const P& p) {
    (d == HIGH ? s.b : s.a) = conv(p);
  }
  template <class P, class Q>
  static cust::Sg<T> construct(const P& lo, const Q& hi) {
    cust::Sg<T> s;
    s.a = conv(lo);
    s.b = conv(hi);
    return s;
  }
};
}  // namespace polygon
}  // namespace boost
#endif
