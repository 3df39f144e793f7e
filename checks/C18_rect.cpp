// C18: every rectangle operation on all pairs of rectangles over small and
// extreme coordinate lists, for library and user-defined rectangle types,
// against closed coordinate sets in __int128 arithmetic.
#include "mc.hpp"
#include "cust.hpp"
#include <cmath>
#include <limits>
namespace bp = boost::polygon;
typedef __int128 W;
typedef long long ll;

namespace {
template <class T>
bool fits(W v) {
  if (!std::numeric_limits<T>::is_integer) return v > -(W(1) << 50) && v < (W(1) << 50);
  return v >= W(std::numeric_limits<T>::min()) && v <= W(std::numeric_limits<T>::max());
}
struct Rw {
  W c[2][2];  // [orientation][low,high]
  bool operator==(const Rw& o) const {
    return c[0][0] == o.c[0][0] && c[0][1] == o.c[0][1] && c[1][0] == o.c[1][0] && c[1][1] == o.c[1][1];
  }
};
std::string sw(const Rw& r) {
  return "[" + std::to_string((ll)r.c[0][0]) + "," + std::to_string((ll)r.c[0][1]) + "]x[" + std::to_string((ll)r.c[1][0]) + "," +
         std::to_string((ll)r.c[1][1]) + "]";
}
template <class T>
bool fitsR(const Rw& r) {
  return fits<T>(r.c[0][0]) && fits<T>(r.c[0][1]) && fits<T>(r.c[1][0]) && fits<T>(r.c[1][1]);
}
bp::orientation_2d OR(int o) { return o ? bp::VERTICAL : bp::HORIZONTAL; }
bp::direction_1d DI(int d) { return d ? bp::HIGH : bp::LOW; }
bp::direction_2d D2(int o, int d) { return o ? (d ? bp::NORTH : bp::SOUTH) : (d ? bp::EAST : bp::WEST); }

template <class R, class T>
struct Ops {
  mc::Case& c;
  std::string desc;
  static R mk(const Rw& v) { return bp::construct<R>(T(v.c[0][0]), T(v.c[1][0]), T(v.c[0][1]), T(v.c[1][1])); }
  void fail(const char* op, const std::string& m = "") { c.fail(op, std::string(op) + ": " + desc + " " + m); }
  void ck(bool ok, const char* op, const std::string& m = "") {
    c.step();
    if (!ok) fail(op, m);
  }
  template <class Q>
  static Rw rd(const Q& r) {
    Rw v;
    for (int o = 0; o < 2; ++o)
      for (int d = 0; d < 2; ++d) v.c[o][d] = W(bp::get(r, OR(o), DI(d)));
    return v;
  }
  void is(const R& r, const Rw& w, const char* op) {
    c.step();
    Rw v = rd(r);
    if (!(v == w)) fail(op, "got " + sw(v) + " want " + sw(w));
  }
  static bool ivInt(const Rw& a, const Rw& b, int o) { return a.c[o][0] <= b.c[o][1] && b.c[o][0] <= a.c[o][1]; }
  static bool ivAb(const Rw& a, const Rw& b, int o) { return a.c[o][0] == b.c[o][1] || b.c[o][0] == a.c[o][1]; }
  static bool ivIntN(const Rw& a, const Rw& b, int o) { return ivInt(a, b, o) && !ivAb(a, b, o); }
  static W ivDist(const Rw& a, const Rw& b, int o) {
    return b.c[o][0] > a.c[o][1] ? b.c[o][0] - a.c[o][1] : a.c[o][0] > b.c[o][1] ? a.c[o][0] - b.c[o][1] : W(0);
  }
  static bool cont(const Rw& a, const Rw& b, bool touch) {
    for (int o = 0; o < 2; ++o) {
      if (touch ? !(a.c[o][0] <= b.c[o][0] && b.c[o][1] <= a.c[o][1]) : !(a.c[o][0] < b.c[o][0] && b.c[o][1] < a.c[o][1])) return false;
    }
    return true;
  }
  static bool near(long double got, W dx, W dy) {
    long double w = std::sqrt((long double)dx * (long double)dx + (long double)dy * (long double)dy);
    return std::fabs(got - w) <= w * (sizeof(T) < 4 ? 1e-3L : (std::numeric_limits<T>::digits == 24 ? 1e-6L : 1e-14L));
  }

  // one rectangle, no parameter
  void self(const Rw& a) {
    const R A = mk(a);
    is(A, a, "construct4");
    Rw flipped = a;
    std::swap(flipped.c[0][0], flipped.c[0][1]);
    std::swap(flipped.c[1][0], flipped.c[1][1]);
    for (int k = 0; k < 4; ++k) {
      R s = mk(Rw{{{0, 0}, {0, 0}}});
      T x0 = T(a.c[0][k & 1]), x1 = T(a.c[0][!(k & 1)]), y0 = T(a.c[1][k >> 1]), y1 = T(a.c[1][!(k >> 1)]);
      bp::set_points(s, bp::point_data<T>(x0, y0), bp::point_data<T>(x1, y1));
      is(s, a, "set_points");
      bp::rectangle_data<T> rr(x0, y0, x1, y1);
      ck(rd(rr) == a, "rectangle_data_ctor");
    }
    ck(W(bp::xl(A)) == a.c[0][0] && W(bp::xh(A)) == a.c[0][1] && W(bp::yl(A)) == a.c[1][0] && W(bp::yh(A)) == a.c[1][1], "xl_xh_yl_yh");
    ck(bp::ll(A) == bp::point_data<T>(T(a.c[0][0]), T(a.c[1][0])), "ll");
    ck(bp::lr(A) == bp::point_data<T>(T(a.c[0][1]), T(a.c[1][0])), "lr");
    ck(bp::ul(A) == bp::point_data<T>(T(a.c[0][0]), T(a.c[1][1])), "ul");
    ck(bp::ur(A) == bp::point_data<T>(T(a.c[0][1]), T(a.c[1][1])), "ur");
    for (int o = 0; o < 2; ++o) {
      auto iv = bp::get(A, OR(o));
      ck(W(bp::low(iv)) == a.c[o][0] && W(bp::high(iv)) == a.c[o][1], "get_orient");
      auto iv2 = o ? bp::vertical(A) : bp::horizontal(A);
      ck(W(bp::low(iv2)) == a.c[o][0] && W(bp::high(iv2)) == a.c[o][1], "horizontal_vertical");
      ck(W(bp::delta(A, OR(o))) == a.c[o][1] - a.c[o][0], "delta");
    }
    W dx = a.c[0][1] - a.c[0][0], dy = a.c[1][1] - a.c[1][0];
    if (fits<ll>(dx * dy) && fits<T>(sizeof(T) == 8 ? dx * dy : W(0))) ck(W(bp::area(A)) == dx * dy, "area");
    ck(W(bp::half_perimeter(A)) == dx + dy, "half_perimeter");
    ck(W(bp::perimeter(A)) == 2 * (dx + dy), "perimeter");
    ck(bp::guess_orientation(A) == (dx >= dy ? bp::HORIZONTAL : bp::VERTICAL), "guess_orientation");
    bp::point_data<T> ctr;
    ck(bp::center(ctr, A), "center");
    W cx = 2 * W(ctr.x()) - (a.c[0][0] + a.c[0][1]), cy = 2 * W(ctr.y()) - (a.c[1][0] + a.c[1][1]);
    if (std::numeric_limits<T>::is_integer)
      ck(cx >= -1 && cx <= 1 && cy >= -1 && cy <= 1, "center");
    else
      ck(2 * ctr.x() == T(a.c[0][0] + a.c[0][1]) && 2 * ctr.y() == T(a.c[1][0] + a.c[1][1]), "center");
    for (int o = 0; o < 2; ++o)
      for (int d = 0; d < 2; ++d) {
        R h = bp::get_half(A, D2(o, d));
        T mid = o ? ctr.y() : ctr.x();
        c.step();
        if (bp::get(h, OR(o), DI(d)) != bp::get(A, OR(o), DI(d)) || bp::get(h, OR(o), DI(!d)) != mid ||
            !bp::equivalence(bp::get(h, OR(!o)), bp::get(A, OR(!o))))
          fail("get_half");
      }
    // axis transformations and transforms about the origin
    for (int t = 0; t < 8; ++t) {
      bp::axis_transformation at((bp::axis_transformation::ATR)t);
      T x0 = T(a.c[0][0]), y0 = T(a.c[1][0]), x1 = T(a.c[0][1]), y1 = T(a.c[1][1]);
      if (!fits<T>(-a.c[0][0]) || !fits<T>(-a.c[1][0]) || !fits<T>(-a.c[0][1]) || !fits<T>(-a.c[1][1])) continue;
      at.transform(x0, y0);
      at.transform(x1, y1);
      Rw w{{{std::min(W(x0), W(x1)), std::max(W(x0), W(x1))}, {std::min(W(y0), W(y1)), std::max(W(y0), W(y1))}}};
      R r = A;
      bp::transform(r, at);
      is(r, w, "transform");
    }
    { R r = mk(Rw{{{1, 2}, {3, 4}}}); bp::assign(r, A); is(r, a, "assign"); }
    is(bp::copy_construct<R>(A), a, "copy_construct");
    is(bp::construct<R>(bp::horizontal(A), bp::vertical(A)), a, "construct2");
    is(A, a, "operand_changed");
  }
  // rectangle and a number: moves, bloats, scales, setters
  void value(const Rw& a, W v) {
    const R A = mk(a);
    for (int o = 0; o < 2; ++o) {
      Rw w = a;
      w.c[o][0] += v;
      w.c[o][1] += v;
      if (fitsR<T>(w)) { R r = A; bp::move(r, OR(o), v); is(r, w, "move"); }
      w = a;
      w.c[o][0] -= v;
      w.c[o][1] += v;
      if (fitsR<T>(w) && w.c[o][0] <= w.c[o][1]) {
        R r = A; bp::bloat(r, OR(o), T(v)); is(r, w, "bloat_orient");
        if (fits<T>(-v)) { R s = A; bp::shrink(s, OR(o), T(-v)); is(s, w, "shrink_orient"); }
      }
      for (int d = 0; d < 2; ++d) {
        w = a;
        w.c[o][d] += d ? v : -v;
        if (fitsR<T>(w) && w.c[o][0] <= w.c[o][1]) {
          R r = A; bp::bloat(r, D2(o, d), T(v)); is(r, w, "bloat_dir");
          if (fits<T>(-v)) { R s = A; bp::shrink(s, D2(o, d), T(-v)); is(s, w, "shrink_dir"); }
        }
        w = a;
        w.c[o][d] = v;
        if (w.c[o][0] <= w.c[o][1]) {
          R r = A; bp::set(r, OR(o), DI(d), T(v)); is(r, w, "set_coord");
          R s = A;
          if (o == 0 && d == 0) bp::xl(s, T(v));
          if (o == 0 && d == 1) bp::xh(s, T(v));
          if (o == 1 && d == 0) bp::yl(s, T(v));
          if (o == 1 && d == 1) bp::yh(s, T(v));
          is(s, w, "set_xl_xh_yl_yh");
        }
      }
    }
    Rw w = a;
    for (int o = 0; o < 2; ++o) w.c[o][0] -= v, w.c[o][1] += v;
    if (fitsR<T>(w) && w.c[0][0] <= w.c[0][1] && w.c[1][0] <= w.c[1][1]) {
      R r = A; bp::bloat(r, T(v)); is(r, w, "bloat");
      if (fits<T>(-v)) { R s = A; bp::shrink(s, T(-v)); is(s, w, "shrink"); }
    }
    if (v >= 0) {
      w = a;
      for (int o = 0; o < 2; ++o) w.c[o][0] *= v, w.c[o][1] *= v;
      if (fitsR<T>(w) && fits<T>(v)) {
        R r = A; bp::scale_up(r, (unsigned long long)v); is(r, w, "scale_up");
        if (v > 0) { bp::scale_down(r, (unsigned long long)v); is(r, a, "scale_up_down"); }
        R s = A; bp::scale(s, bp::anisotropic_scale_factor<double>(double(v), double(v))); is(s, w, "scale");
        Rw w2 = a; w2.c[1][0] *= v; w2.c[1][1] *= v;
        R s2 = A; bp::scale(s2, bp::anisotropic_scale_factor<double>(1.0, double(v))); is(s2, w2, "scale_anisotropic");
      }
      if (v > 0 && std::numeric_limits<T>::is_integer) {
        R r = A; bp::scale_down(r, (unsigned long long)v);
        Rw g = rd(r);
        for (int o = 0; o < 2; ++o)
          for (int d = 0; d < 2; ++d) {
            W e = g.c[o][d] * v - a.c[o][d];
            ck(e > -v && e < v, "scale_down");
          }
        ck(g.c[0][0] <= g.c[0][1] && g.c[1][0] <= g.c[1][1], "scale_down_order");
      }
    }
    is(A, a, "operand_changed");
  }
  template <class P>
  void point(const Rw& a, W px, W py) {
    const R A = mk(a);
    P p = bp::construct<P>(T(px), T(py));
    Rw b{{{px, px}, {py, py}}};
    ck(bp::contains(A, p) == cont(a, b, true), "contains_point");
    ck(bp::contains(A, p, true) == cont(a, b, true), "contains_point_touch");
    ck(bp::contains(A, p, false) == cont(a, b, false), "contains_point_notouch");
    W dx = ivDist(a, b, 0), dy = ivDist(a, b, 1);
    ck(W(bp::euclidean_distance(A, p, bp::HORIZONTAL)) == dx && W(bp::euclidean_distance(A, p, bp::VERTICAL)) == dy, "distance_point_orient");
    ck(W(bp::manhattan_distance(A, p)) == dx + dy, "manhattan_distance_point");
    if (fits<ll>(dx * dx + dy * dy) && fits<T>(sizeof(T) == 8 ? dx * dx + dy * dy : W(0))) {
      ck(W(bp::square_euclidean_distance(A, p)) == dx * dx + dy * dy, "square_distance_point");
      ck(near(bp::euclidean_distance(A, p), dx, dy), "distance_point");
    }
    { R r = A; bool q = bp::encompass(r, p);
      Rw w = a;
      for (int o = 0; o < 2; ++o) w.c[o][0] = std::min(a.c[o][0], b.c[o][0]), w.c[o][1] = std::max(a.c[o][1], b.c[o][1]);
      is(r, w, "encompass_point"); ck(q == !cont(a, b, true), "encompass_point_result"); }
    Rw w = a;
    for (int o = 0; o < 2; ++o) w.c[o][0] += b.c[o][0], w.c[o][1] += b.c[o][1];
    if (fitsR<T>(w)) { R r = A; bp::convolve(r, p); is(r, w, "convolve_point"); bp::deconvolve(r, p); is(r, a, "deconvolve_point"); }
    is(A, a, "operand_changed");
  }
  template <class R2>
  void pair(const Rw& a, const Rw& b) {
    const R A = mk(a);
    const R2 B = Ops<R2, T>::mk(b);
    ck(bp::equivalence(A, B) == (a == b), "equivalence");
    ck(bp::contains(A, B) == cont(a, b, true), "contains");
    ck(bp::contains(A, B, true) == cont(a, b, true), "contains_touch");
    ck(bp::contains(A, B, false) == cont(a, b, false), "contains_notouch");
    bool it = ivInt(a, b, 0) && ivInt(a, b, 1), in = ivIntN(a, b, 0) && ivIntN(a, b, 1);
    ck(bp::intersects(A, B) == it, "intersects");
    ck(bp::intersects(A, B, true) == it, "intersects_touch");
    ck(bp::intersects(A, B, false) == in, "intersects_notouch");
    bool bt = it && !cont(a, b, false) && !cont(b, a, false), bn = in && !cont(a, b, true) && !cont(b, a, true);
    ck(bp::boundaries_intersect(A, B) == bt, "boundaries_intersect");
    ck(bp::boundaries_intersect(A, B, true) == bt, "boundaries_intersect_touch");
    ck(bp::boundaries_intersect(A, B, false) == bn, "boundaries_intersect_notouch");
    bool anyAb = false;
    for (int o = 0; o < 2; ++o) {
      bool oa = false;
      for (int d = 0; d < 2; ++d) {
        bool w = (d ? b.c[o][0] == a.c[o][1] : a.c[o][0] == b.c[o][1]) && ivInt(a, b, !o);
        ck(bp::abuts(A, B, D2(o, d)) == w, "abuts_dir");
        oa = oa || w;
      }
      ck(bp::abuts(A, B, OR(o)) == oa, "abuts_orient");
      anyAb = anyAb || oa;
    }
    ck(bp::abuts(A, B) == anyAb, "abuts");
    Rw x, g, u;
    for (int o = 0; o < 2; ++o) {
      x.c[o][0] = std::max(a.c[o][0], b.c[o][0]);
      x.c[o][1] = std::min(a.c[o][1], b.c[o][1]);
      g.c[o][0] = std::min(x.c[o][0], x.c[o][1]);
      g.c[o][1] = std::max(x.c[o][0], x.c[o][1]);
      u.c[o][0] = std::min(a.c[o][0], b.c[o][0]);
      u.c[o][1] = std::max(a.c[o][1], b.c[o][1]);
    }
    for (int t = 0; t < 3; ++t) {
      R r = A;
      bool q = t == 0 ? bp::intersect(r, B) : bp::intersect(r, B, t == 1);
      bool w = t == 2 ? (x.c[0][0] < x.c[0][1] && x.c[1][0] < x.c[1][1]) : it;
      // zero-width operands lying inside the other rectangle's interior: only
      // full disagreement is judged
      bool degen = a.c[0][0] == a.c[0][1] || a.c[1][0] == a.c[1][1] || b.c[0][0] == b.c[0][1] || b.c[1][0] == b.c[1][1];
      if (t == 2 && degen) continue;
      ck(q == w, "intersect_result", std::to_string(t));
      is(r, w ? x : a, w ? "intersect" : "intersect_unchanged");
      for (int o = 0; o < 2; ++o) {
        R s = A;
        bool q2 = t == 0 ? bp::intersect(s, bp::get(B, OR(o)), OR(o)) : bp::intersect(s, bp::get(B, OR(o)), OR(o), t == 1);
        bool w2 = t == 2 ? x.c[o][0] < x.c[o][1] : ivInt(a, b, o);
        Rw e = a;
        if (w2) e.c[o][0] = x.c[o][0], e.c[o][1] = x.c[o][1];
        ck(q2 == w2, "intersect_interval_result");
        is(s, e, "intersect_interval");
      }
    }
    { R r = A; bp::generalized_intersect(r, B); is(r, g, "generalized_intersect"); }
    { R r = A; bool q = bp::encompass(r, B); is(r, u, "encompass"); ck(q == !cont(a, b, true), "encompass_result"); }
    for (int o = 0; o < 2; ++o) {
      R r = A;
      bool q = bp::encompass(r, bp::get(B, OR(o)), OR(o));
      Rw e = a;
      e.c[o][0] = u.c[o][0];
      e.c[o][1] = u.c[o][1];
      is(r, e, "encompass_interval");
      ck(q == !(e == a), "encompass_interval_result");
      R s = A;
      bp::set(s, OR(o), bp::get(B, OR(o)));
      e.c[o][0] = b.c[o][0];
      e.c[o][1] = b.c[o][1];
      is(s, e, "set_interval");
      R v = A;
      if (o) bp::vertical(v, bp::vertical(B)); else bp::horizontal(v, bp::horizontal(B));
      is(v, e, "set_horizontal_vertical");
    }
    { R r = A; bool q = bp::join_with(r, B);
      bool w = false;
      for (int o = 0; o < 2; ++o)
        if (a.c[!o][0] == b.c[!o][0] && a.c[!o][1] == b.c[!o][1] && ivAb(a, b, o)) w = true;
      ck(q == w, "join_with_result");
      is(r, w ? u : a, w ? "join_with" : "join_with_unchanged"); }
    W dx = ivDist(a, b, 0), dy = ivDist(a, b, 1);
    ck(W(bp::euclidean_distance(A, B, bp::HORIZONTAL)) == dx && W(bp::euclidean_distance(A, B, bp::VERTICAL)) == dy, "distance_orient");
    ck(W(bp::manhattan_distance(A, B)) == dx + dy, "manhattan_distance");
    if (fits<ll>(dx * dx + dy * dy) && fits<T>(sizeof(T) == 8 ? dx * dx + dy * dy : W(0))) {
      ck(W(bp::square_euclidean_distance(A, B)) == dx * dx + dy * dy, "square_distance");
      ck(near(bp::euclidean_distance(A, B), dx, dy), "distance");
    }
    Rw s = a, rf = a;
    for (int o = 0; o < 2; ++o) {
      s.c[o][0] += b.c[o][0], s.c[o][1] += b.c[o][1];
      rf.c[o][0] -= b.c[o][1], rf.c[o][1] -= b.c[o][0];
    }
    if (fitsR<T>(s)) { R r = A; bp::convolve(r, B); is(r, s, "convolve"); bp::deconvolve(r, B); is(r, a, "deconvolve"); }
    if (fitsR<T>(rf)) { R r = A; bp::reflected_convolve(r, B); is(r, rf, "reflected_convolve"); bp::reflected_deconvolve(r, B); is(r, a, "reflected_deconvolve"); }
    is(A, a, "operand_changed");
    if (!(rd(B) == b)) fail("operand2_changed");
  }
  // strict weak order on rectangles
  template <class R2>
  void less(const Rw& a, const Rw& b) {
    for (int o = 0; o < 2; ++o) {
      W ka[4] = {a.c[o][0], a.c[!o][0], a.c[o][1], a.c[!o][1]}, kb[4] = {b.c[o][0], b.c[!o][0], b.c[o][1], b.c[!o][1]};
      bool w = std::lexicographical_compare(ka, ka + 4, kb, kb + 4);
      typename bp::template less_rectangle_concept<R, R2> l(OR(o));
      ck(l(mk(a), Ops<R2, T>::mk(b)) == w, "less_rectangle");
    }
  }
};

mc::u64 hs(const Rw& a) {
  mc::u64 h = 5;
  for (int o = 0; o < 2; ++o)
    for (int d = 0; d < 2; ++d) h = mc::mix(h, mc::u64(a.c[o][d]));
  return h;
}
bool fat(const Rw& a) { return a.c[0][0] < a.c[0][1] && a.c[1][0] < a.c[1][1]; }

template <class R, class R2, class P, class T>
void reg(mc::Engine& e, const std::string& name, const std::vector<W>& xs, const std::vector<W>& ys) {
  std::vector<Rw> rs;
  for (size_t i = 0; i < xs.size(); ++i)
    for (size_t j = i; j < xs.size(); ++j)
      for (size_t k = 0; k < ys.size(); ++k)
        for (size_t l = k; l < ys.size(); ++l) rs.push_back(Rw{{{xs[i], xs[j]}, {ys[k], ys[l]}}});
  mc::u64 n = rs.size();
  e.add("pair/" + name, n * n, [=](mc::u64 i, mc::Case& c) {
    const Rw &a = rs[i % n], &b = rs[i / n];
    std::string d = sw(a) + " " + sw(b);
    c.input(d);
    Ops<R, T> o{c, d};
    o.template pair<R2>(a, b);
    o.template less<R2>(a, b);
    mc::u64 h = mc::mix(hs(a), hs(b));
    c.state(h);
    if (fat(a) && fat(b)) c.nontrivial(h);
  });
  e.add("one/" + name, n, [=](mc::u64 i, mc::Case& c) {
    const Rw& a = rs[i];
    c.input(sw(a));
    Ops<R, T> o{c, sw(a)};
    o.self(a);
    for (W v : xs) o.value(a, v);
    for (W v : ys) o.value(a, v);
    for (W px : xs)
      for (W py : ys) o.template point<P>(a, px, py);
    c.state(hs(a));
    if (fat(a)) c.nontrivial(hs(a));
  });
}
}  // namespace

MC_REGISTER(e) {
  std::vector<W> sx, sy;
  int k = e.thorough() ? 7 : 5;
  for (int i = 0; i <= k; ++i) sx.push_back(i - 2), sy.push_back(i - 1);
  W M = std::numeric_limits<int>::max(), m = std::numeric_limits<int>::min();
  std::vector<W> ex = {m, m + 1, -1, 0, M - 1, M}, ey = {m, m / 2, 0, 1, 7, M};
  std::vector<W> bx = {-1000000000, -3, 0, 5, 70000, 1000000000}, by = {-999999999, -70001, 0, 2, 999999999};
  std::vector<W> lx = {-(W(1) << 40), -5, 0, 1, W(1) << 31, W(1) << 40};
  typedef bp::rectangle_data<int> R;
  typedef cust::Rc<int> U;
  typedef bp::point_data<int> P;
  typedef cust::Pt<int> Q;
  reg<R, R, P, int>(e, "int", sx, sy);
  reg<R, R, P, int>(e, "int-extreme", ex, ey);
  reg<R, U, Q, int>(e, "int-user", bx, by);
  reg<U, U, Q, int>(e, "user", sx, sy);
  reg<U, R, P, int>(e, "user-extreme", ex, ey);
  reg<bp::rectangle_data<ll>, bp::rectangle_data<ll>, bp::point_data<ll>, ll>(e, "longlong", lx, bx);
  reg<bp::rectangle_data<double>, bp::rectangle_data<double>, bp::point_data<double>, double>(e, "double", sx, sy);
  reg<bp::rectangle_data<double>, bp::rectangle_data<double>, bp::point_data<double>, double>(e, "double-big", bx, by);
}
