// C20: every point and segment operation on all points / pairs of points /
// pairs of segments over small and extreme coordinate lists, for library and
// user-defined types, against exact arithmetic (__int128, rational squared
// distances).
#include "mc.hpp"
#include "cust.hpp"
#include <cmath>
#include <limits>
namespace bp = boost::polygon;
typedef __int128 W;
typedef long long ll;
typedef __float128 Q;

namespace {
template <class T>
bool fits(W v) {
  if (!std::numeric_limits<T>::is_integer) return v > -(W(1) << 50) && v < (W(1) << 50);
  return v >= W(std::numeric_limits<T>::min()) && v <= W(std::numeric_limits<T>::max());
}
struct Pw {
  W x, y;
  bool operator==(const Pw& o) const { return x == o.x && y == o.y; }
  bool operator!=(const Pw& o) const { return !(*this == o); }
  bool operator<(const Pw& o) const { return x < o.x || (x == o.x && y < o.y); }
};
struct Sw {
  Pw l, h;
};
std::string sp(Pw p) { return "(" + std::to_string((ll)p.x) + "," + std::to_string((ll)p.y) + ")"; }
std::string ss(const Sw& s) { return sp(s.l) + "-" + sp(s.h); }
int sgn(W v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
W cross(Pw a, Pw b) { return a.x * b.y - a.y * b.x; }
W dot(Pw a, Pw b) { return a.x * b.x + a.y * b.y; }
Pw sub(Pw a, Pw b) { return Pw{a.x - b.x, a.y - b.y}; }
bool onClosed(const Sw& s, Pw p) {
  if (cross(sub(s.h, s.l), sub(p, s.l)) != 0) return false;
  return std::min(s.l.x, s.h.x) <= p.x && p.x <= std::max(s.l.x, s.h.x) && std::min(s.l.y, s.h.y) <= p.y && p.y <= std::max(s.l.y, s.h.y);
}
bool onOpen(const Sw& s, Pw p) { return onClosed(s, p) && p != s.l && p != s.h; }
// closed segments share a point
bool meet(const Sw& a, const Sw& b) {
  if (onClosed(a, b.l) || onClosed(a, b.h) || onClosed(b, a.l) || onClosed(b, a.h)) return true;
  Pw d = sub(a.h, a.l), e = sub(b.h, b.l);
  return sgn(cross(d, sub(b.l, a.l))) * sgn(cross(d, sub(b.h, a.l))) < 0 && sgn(cross(e, sub(a.l, b.l))) * sgn(cross(e, sub(a.h, b.l))) < 0;
}
// they share a point that is not an end point of both
bool meetInner(const Sw& a, const Sw& b) {
  if (onOpen(a, b.l) || onOpen(a, b.h) || onOpen(b, a.l) || onOpen(b, a.h)) return true;
  if (a.l != a.h && ((a.l == b.l && a.h == b.h) || (a.l == b.h && a.h == b.l))) return true;
  Pw d = sub(a.h, a.l), e = sub(b.h, b.l);
  return sgn(cross(d, sub(b.l, a.l))) * sgn(cross(d, sub(b.h, a.l))) < 0 && sgn(cross(e, sub(a.l, b.l))) * sgn(cross(e, sub(a.h, b.l))) < 0;
}
Q dist2(const Sw& s, Pw p) {
  Pw d = sub(s.h, s.l), v = sub(p, s.l);
  W t = dot(d, v), L = dot(d, d);
  if (t <= 0 || L == 0) return Q(dot(v, v));
  if (t >= L) return Q(dot(sub(p, s.h), sub(p, s.h)));
  Q k = Q(cross(d, v));
  return k * k / Q(L);
}
bool near(long double got, Q d2) {
  long double w = std::sqrt((long double)d2);
  return std::fabs(got - w) <= 1e-9L * w + 1e-6L;
}

template <class P, class T>
struct POps {
  mc::Case& c;
  std::string desc;
  static P mk(Pw v) { return bp::construct<P>(T(v.x), T(v.y)); }
  void fail(const char* op, const std::string& m = "") { c.fail(op, std::string(op) + ": " + desc + " " + m); }
  void ck(bool ok, const char* op, const std::string& m = "") {
    c.step();
    if (!ok) fail(op, m);
  }
  template <class R>
  void is(const R& p, Pw w, const char* op) {
    c.step();
    Pw g{W(bp::x(p)), W(bp::y(p))};
    if (g != w) fail(op, "got " + sp(g) + " want " + sp(w));
  }
  static bool fitsP(Pw p) { return fits<T>(p.x) && fits<T>(p.y); }
  void one(Pw a, W v) {
    const P A = mk(a);
    is(A, a, "construct");
    ck(W(bp::get(A, bp::HORIZONTAL)) == a.x && W(bp::get(A, bp::VERTICAL)) == a.y, "get");
    { P p = mk(Pw{1, 2}); bp::assign(p, A); is(p, a, "assign"); }
    { P p = A; bp::x(p, T(v)); is(p, Pw{v, a.y}, "set_x"); bp::y(p, T(v)); is(p, Pw{v, v}, "set_y"); }
    { P p = A; bp::set(p, bp::HORIZONTAL, T(v)); is(p, Pw{v, a.y}, "set_h"); P q = A; bp::set(q, bp::VERTICAL, T(v)); is(q, Pw{a.x, v}, "set_v"); }
    if (fits<T>(a.x + v)) { P p = A; bp::move(p, bp::HORIZONTAL, T(v)); is(p, Pw{a.x + v, a.y}, "move_h"); }
    if (fits<T>(a.y + v)) { P p = A; bp::move(p, bp::VERTICAL, T(v)); is(p, Pw{a.x, a.y + v}, "move_v"); }
    if (v > 0 && v < (W(1) << 40)) {
      if (fitsP(Pw{a.x * v, a.y * v})) {
        P p = A; bp::scale_up(p, (unsigned long long)v); is(p, Pw{a.x * v, a.y * v}, "scale_up");
        bp::scale_down(p, (unsigned long long)v); is(p, a, "scale_up_down");
        if (fits<double>(a.x * v) && fits<double>(a.y * v)) { P q = A; bp::scale(q, bp::anisotropic_scale_factor<double>(double(v), double(v))); is(q, Pw{a.x * v, a.y * v}, "scale"); }
      }
      if (std::numeric_limits<T>::is_integer) {
        P p = A;
        bp::scale_down(p, (unsigned long long)v);
        for (int k = 0; k < 2; ++k) {
          W g = W(bp::get(p, k ? bp::VERTICAL : bp::HORIZONTAL)), e = k ? a.y : a.x;
          // round half up: g <= e/v + 1/2 < g+1
          ck(2 * v * g <= 2 * e + v && 2 * e + v < 2 * v * (g + 1), "scale_down");
        }
      }
    }
    if (fitsP(Pw{-a.x, -a.y}))
      for (int t = 0; t < 8; ++t) {
        W x = (t & 1) ? -a.x : a.x, y = (t & 2) ? -a.y : a.y;
        if (t & 4) std::swap(x, y);
        P p = A;
        bp::transform(p, bp::axis_transformation((bp::axis_transformation::ATR)t));
        is(p, Pw{x, y}, "transform");
      }
    is(A, a, "operand_changed");
  }
  template <class P2>
  void two(Pw a, Pw b) {
    const P A = mk(a);
    const P2 B = POps<P2, T>::mk(b);
    ck(bp::equivalence(A, B) == (a == b), "equivalence");
    W dx = a.x > b.x ? a.x - b.x : b.x - a.x, dy = a.y > b.y ? a.y - b.y : b.y - a.y;
    ck(W(bp::euclidean_distance(A, B, bp::HORIZONTAL)) == dx && W(bp::euclidean_distance(A, B, bp::VERTICAL)) == dy, "distance_orient");
    ck(W(bp::manhattan_distance(A, B)) == dx + dy, "manhattan_distance");
    if (fits<ll>(dx * dx + dy * dy) && (std::numeric_limits<T>::is_integer || fits<T>(dx * dx + dy * dy)))
      ck(W(bp::distance_squared(A, B)) == dx * dx + dy * dy, "distance_squared");
    ck(near(bp::euclidean_distance(A, B), Q(dx) * Q(dx) + Q(dy) * Q(dy)), "distance");
    if (fitsP(Pw{a.x + b.x, a.y + b.y})) { P p = A; bp::convolve(p, B); is(p, Pw{a.x + b.x, a.y + b.y}, "convolve"); bp::deconvolve(p, B); is(p, a, "deconvolve"); }
    { P p = A; bp::assign(p, B); is(p, b, "assign_other"); }
    is(A, a, "operand_changed");
    is(B, b, "operand2_changed");
  }
};

template <class S, class P, class T>
struct SOps {
  mc::Case& c;
  std::string desc;
  static P mp(Pw v) { return bp::construct<P>(T(v.x), T(v.y)); }
  static S mk(const Sw& s) { return bp::construct<S>(mp(s.l), mp(s.h)); }
  void fail(const char* op, const std::string& m = "") { c.fail(op, std::string(op) + ": " + desc + " " + m); }
  void ck(bool ok, const char* op, const std::string& m = "") {
    c.step();
    if (!ok) fail(op, m);
  }
  template <class S2>
  void is(const S2& s, const Sw& w, const char* op) {
    c.step();
    auto l = bp::low(s), h = bp::high(s);
    Sw g{Pw{W(bp::x(l)), W(bp::y(l))}, Pw{W(bp::x(h)), W(bp::y(h))}};
    if (g.l != w.l || g.h != w.h) fail(op, "got " + ss(g) + " want " + ss(w));
  }
  static bool fitsS(const Sw& s) { return fits<T>(s.l.x) && fits<T>(s.l.y) && fits<T>(s.h.x) && fits<T>(s.h.y); }
  void one(const Sw& s) {
    const S A = mk(s);
    is(A, s, "construct");
    auto g0 = bp::get(A, bp::LOW);
    auto g1 = bp::get(A, bp::HIGH);
    ck(W(bp::x(g0)) == s.l.x && W(bp::y(g0)) == s.l.y && W(bp::x(g1)) == s.h.x && W(bp::y(g1)) == s.h.y, "get");
    { S b = mk(Sw{{0, 1}, {2, 3}}); bp::assign(b, A); is(b, s, "assign"); }
    is(bp::copy_construct<S>(A), s, "copy_construct");
    auto m = bp::center(A);
    if (fits<ll>(s.l.x + s.h.x)) {
      W cx = 2 * W(bp::x(m)) - s.l.x - s.h.x, cy = 2 * W(bp::y(m)) - s.l.y - s.h.y;
      ck(cx >= -1 && cx <= 1 && cy >= -1 && cy <= 1, "center");
    }
    Pw d = sub(s.h, s.l);
    ck(near(bp::length(A), Q(d.x) * Q(d.x) + Q(d.y) * Q(d.y)), "length");
    for (int t = 0; t < 8; ++t) {
      Sw w;
      bool ok = true;
      for (int k = 0; k < 2; ++k) {
        Pw p = k ? s.h : s.l;
        W x = (t & 1) ? -p.x : p.x, y = (t & 2) ? -p.y : p.y;
        if (t & 4) std::swap(x, y);
        (k ? w.h : w.l) = Pw{x, y};
        ok = ok && fits<T>(-p.x) && fits<T>(-p.y);
      }
      if (!ok) continue;
      S b = A;
      bp::transform(b, bp::axis_transformation((bp::axis_transformation::ATR)t));
      is(b, w, "transform");
    }
    is(A, s, "operand_changed");
  }
  void value(const Sw& s, W v) {
    const S A = mk(s);
    for (int o = 0; o < 2; ++o) {
      Sw w = s;
      (o ? w.l.y : w.l.x) += v;
      (o ? w.h.y : w.h.x) += v;
      if (fitsS(w)) { S b = A; bp::move(b, o ? bp::VERTICAL : bp::HORIZONTAL, T(v)); is(b, w, "move"); }
    }
    if (v > 0 && v < (W(1) << 40)) {
      Sw w{{s.l.x * v, s.l.y * v}, {s.h.x * v, s.h.y * v}};
      if (fitsS(w)) {
        S b = A; bp::scale_up(b, (unsigned long long)v); is(b, w, "scale_up");
        bp::scale_down(b, (unsigned long long)v); is(b, s, "scale_up_down");
        if (fits<double>(w.l.x) && fits<double>(w.l.y) && fits<double>(w.h.x) && fits<double>(w.h.y)) { S q = A; bp::scale(q, bp::anisotropic_scale_factor<double>(double(v), double(v))); is(q, w, "scale"); }
      }
    }
  }
  template <class P2>
  void point(const Sw& s, Pw p) {
    const S A = mk(s);
    P2 B = bp::construct<P2>(T(p.x), T(p.y));
    ck(bp::orientation(A, B) == sgn(cross(sub(s.h, s.l), sub(p, s.l))), "orientation_point");
    ck(bp::contains(A, B) == onClosed(s, p), "contains_point");
    ck(bp::contains(A, B, true) == onClosed(s, p), "contains_point_touch");
    ck(bp::contains(A, B, false) == onOpen(s, p), "contains_point_notouch");
    long double d = bp::euclidean_distance(A, B);
    ck(near(d, dist2(s, p)), "distance_point", std::to_string(d));
    { S b = A; bp::low(b, B); is(b, Sw{p, s.h}, "set_low"); bp::high(b, B); is(b, Sw{p, p}, "set_high");
      S e = A; bp::set(e, bp::HIGH, B); is(e, Sw{s.l, p}, "set_HIGH"); }
    Sw w{{s.l.x + p.x, s.l.y + p.y}, {s.h.x + p.x, s.h.y + p.y}};
    if (fitsS(w)) { S b = A; bp::convolve(b, B); is(b, w, "convolve"); bp::deconvolve(b, B); is(b, s, "deconvolve"); }
  }
  template <class S2, class P2>
  void pair(const Sw& a, const Sw& b) {
    const S A = mk(a);
    const S2 B = SOps<S2, P2, T>::mk(b);
    eq(A, B, a, b);
    ck(bp::orientation(A, B) == sgn(cross(sub(a.h, a.l), sub(b.h, b.l))), "orientation");
    bool cc = onClosed(a, b.l) && onClosed(a, b.h), co = onOpen(a, b.l) && onOpen(a, b.h);
    ck(bp::contains(A, B) == cc, "contains");
    ck(bp::contains(A, B, true) == cc, "contains_touch");
    ck(bp::contains(A, B, false) == co, "contains_notouch");
    bool hi = b.l == a.h, lo = a.l == b.h;
    ck(bp::abuts(A, B, bp::HIGH) == hi, "abuts_high");
    ck(bp::abuts(A, B, bp::LOW) == lo, "abuts_low");
    ck(bp::abuts(A, B) == (hi || lo), "abuts");
    bool m = meet(a, b);
    ck(bp::intersects(A, B) == m, "intersects");
    ck(bp::intersects(A, B, true) == m, "intersects_touch");
    ck(bp::intersects(A, B, false) == meetInner(a, b), "intersects_notouch");
    Q d2 = m ? Q(0) : std::min(std::min(dist2(a, b.l), dist2(a, b.h)), std::min(dist2(b, a.l), dist2(b, a.h)));
    long double d = bp::euclidean_distance(A, B);
    ck(near(d, d2) && (!m || d == 0), "distance", std::to_string(d));
    is(A, a, "operand_changed");
    is(B, b, "operand2_changed");
  }
  void eq(const bp::segment_data<T>& A, const bp::segment_data<T>& B, const Sw& a, const Sw& b) {
    bool e = a.l == b.l && a.h == b.h;
    bool lt = a.l != b.l ? pl(a.l, b.l) : pl(a.h, b.h);
    ck(bp::equivalence(A, B) == e, "equivalence");
    ck((A == B) == e && (A != B) == !e, "operator==");
    (void)lt;
    ck((A < B) + (B < A) + (A == B) == 1 && (A <= B) == !(B < A) && (A > B) == (B < A) && (A >= B) == !(A < B), "operator_order");
  }
  static bool pl(Pw a, Pw b) { return a < b; }
  template <class X, class Y>
  void eq(const X& A, const Y& B, const Sw& a, const Sw& b) {
    eq2(A, B, a, b);
  }
  template <class X>
  void eq2(const X& A, const X& B, const Sw& a, const Sw& b) {
    ck(bp::equivalence(A, B) == (a.l == b.l && a.h == b.h), "equivalence");
  }
  template <class X, class Y>
  void eq2(const X&, const Y&, const Sw&, const Sw&) {}
};

mc::u64 hp(Pw p) { return mc::mix(mc::u64(p.x), mc::u64(p.y)); }
mc::u64 hs(const Sw& s) { return mc::mix(hp(s.l), hp(s.h)); }

template <class P, class P2, class S, class S2, class T>
void reg(mc::Engine& e, const std::string& name, const std::vector<W>& xs, const std::vector<W>& ys) {
  std::vector<Pw> ps;
  for (W x : xs)
    for (W y : ys) ps.push_back(Pw{x, y});
  mc::u64 n = ps.size();
  e.add("points/" + name, n * n, [=](mc::u64 i, mc::Case& c) {
    Pw a = ps[i % n], b = ps[i / n];
    c.input(sp(a) + " " + sp(b));
    POps<P, T> o{c, sp(a) + " " + sp(b)};
    o.template two<P2>(a, b);
    o.one(a, b.x);
    c.state(mc::mix(hp(a), hp(b)));
    if (a != b) c.nontrivial(mc::mix(hp(a), hp(b)));
  });
  mc::u64 m = n * n;
  e.add("segment-point/" + name, m, [=](mc::u64 i, mc::Case& c) {
    Sw s{ps[i % n], ps[i / n]};
    c.input(ss(s));
    SOps<S, P, T> o{c, ss(s)};
    o.one(s);
    for (W v : xs) o.value(s, v);
    for (Pw p : ps) {
      o.desc = ss(s) + " " + sp(p);
      o.template point<P2>(s, p);
      c.state(mc::mix(hs(s), hp(p)));
    }
    if (s.l != s.h) c.nontrivial(hs(s));
  });
  e.add("segments/" + name, m * m, [=](mc::u64 i, mc::Case& c) {
    mc::u64 ia = i % m, ib = i / m;
    Sw a{ps[ia % n], ps[ia / n]}, b{ps[ib % n], ps[ib / n]};
    std::string d = ss(a) + " " + ss(b);
    c.input(d);
    SOps<S, P, T> o{c, d};
    o.template pair<S2, P2>(a, b);
    if (meet(a, b)) c.nontrivial(mc::mix(hs(a), hs(b)));
  });
}
}  // namespace

MC_REGISTER(e) {
  typedef bp::point_data<int> P;
  typedef bp::segment_data<int> S;
  typedef cust::Pt<int> UP;
  typedef cust::Sg<int> US;
  std::vector<W> s4 = {-1, 0, 1, 2}, s5 = {-2, -1, 0, 1, 2}, s6 = {0, 1, 2, 3, 4, 5};
  W M = std::numeric_limits<int>::max(), m = std::numeric_limits<int>::min();
  std::vector<W> ex = {m, m + 1, 0, M}, ey = {m, -1, 1, M - 1, M};
  std::vector<W> kx = {m, m / 3, -1, 0, 715827882, M}, ky = {m, 0, 1, M / 2, M};
  std::vector<W> lx = {-(W(1) << 30), -7, 0, (W(1) << 30) - 1, W(1) << 30};
  reg<P, P, S, S, int>(e, "int5", s5, s5);
  reg<P, P, S, S, int>(e, "int-extreme", ex, ey);
  reg<P, P, S, S, int>(e, "int-third", kx, ky);
  reg<P, P, S, S, int>(e, "int-mixed", {m, m + 1, -1, 0, 1, M}, {-2, 0, 1, 2, M});
  reg<P, UP, S, US, int>(e, "int-user", s4, s4);
  reg<UP, UP, US, US, int>(e, "user-extreme", ex, ex);
  reg<bp::point_data<ll>, bp::point_data<ll>, bp::segment_data<ll>, bp::segment_data<ll>, ll>(e, "longlong", lx, ex.size() ? std::vector<W>{-5, 0, 3, W(1) << 30} : lx);
  if (e.thorough()) {
    std::vector<W> e7 = {m, m + 1, -1, 0, 1, M - 1, M};
    reg<P, P, S, S, int>(e, "int6", s6, s6);
    reg<P, P, S, S, int>(e, "int-extreme7", e7, e7);
    std::vector<W> fx = {m, -1431655765, -715827883, 0, 1, 1431655765, M}, fy = {m, -3, 0, 1073741823, 1073741824, M - 1};
    reg<P, P, S, S, int>(e, "int-fractions", fx, fy);
  }
}
