// C19: every interval operation on all pairs of intervals over small and
// extreme coordinate lists, for library and user-defined interval types,
// against arithmetic in __int128.
#include "mc.hpp"
#include "cust.hpp"
#include <limits>
namespace bp = boost::polygon;
typedef __int128 W;
typedef long long ll;

namespace {
template <class T>
bool fits(W v) {
  if (!std::numeric_limits<T>::is_integer) return v > -(W(1) << 50) && v < (W(1) << 50);
  return v >= W(std::numeric_limits<T>::min()) && v <= W(std::numeric_limits<T>::max());
}
struct Iw {
  W l, h;
};
template <class I, class T>
struct Ops {
  mc::Case& c;
  std::string desc;
  I mk(Iw v) { return bp::construct<I>(T(v.l), T(v.h)); }
  void fail(const char* op, const std::string& m = "") { c.fail(op, std::string(op) + ": " + desc + " " + m); }
  void ck(bool ok, const char* op, const std::string& m = "") {
    c.step();
    if (!ok) fail(op, m);
  }
  static std::string s(W v) { return std::to_string((ll)v); }
  void is(const I& i, W l, W h, const char* op) {
    c.step();
    if (W(bp::low(i)) != l || W(bp::high(i)) != h)
      fail(op, "got [" + s(W(bp::low(i))) + "," + s(W(bp::high(i))) + "] want [" + s(l) + "," + s(h) + "]");
    if (bp::low(i) > bp::high(i)) fail(op, "low > high");
  }
  // the operations that only take one interval and a number
  void unary(Iw a, W v) {
    const I A = mk(a);
    ck(W(bp::get(A, bp::LOW)) == a.l && W(bp::get(A, bp::HIGH)) == a.h, "get");
    is(bp::construct<I>(T(a.h), T(a.l)), a.l, a.h, "construct");
    is(bp::copy_construct<I>(bp::interval_data<T>(T(a.l), T(a.h))), a.l, a.h, "copy_construct");
    { I x = mk(Iw{0, 0}); bp::assign(x, A); is(x, a.l, a.h, "assign"); }
    T tv = T(v);
    ck(bp::contains(A, tv) == (a.l <= v && v <= a.h), "contains_value");
    ck(bp::contains(A, tv, true) == (a.l <= v && v <= a.h), "contains_value_touch");
    ck(bp::contains(A, tv, false) == (a.l < v && v < a.h), "contains_value_notouch");
    if (fits<ll>(a.l + a.h)) {
      T m = bp::center(A);
      W d = 2 * W(m) - (a.l + a.h);
      if (std::numeric_limits<T>::is_integer)
        ck(d >= -1 && d <= 1, "center", s(W(m)));
      else
        ck(2 * m == T(a.l) + T(a.h), "center");
      for (int k = 0; k < 2; ++k) {
        I h = bp::get_half(A, k ? bp::HIGH : bp::LOW);
        c.step();
        if (bp::get(h, k ? bp::HIGH : bp::LOW) != bp::get(A, k ? bp::HIGH : bp::LOW) ||
            bp::get(h, k ? bp::LOW : bp::HIGH) != m)
          fail("get_half");
      }
    }
    if (fits<T>(a.h - a.l) || sizeof(T) <= 4) ck(W(bp::delta(A)) == a.h - a.l, "delta");
    {
      W d = v < a.l ? a.l - v : v > a.h ? v - a.h : 0;
      if (fits<ll>(a.l - v) && fits<ll>(v - a.h)) ck(W(bp::euclidean_distance(A, tv)) == d, "distance_value");
    }
    if (fits<T>(2 * v) && fits<T>(2 * v - a.h) && fits<T>(2 * v - a.l)) {
      I x = A; I& r = bp::flip(x, tv); is(x, 2 * v - a.h, 2 * v - a.l, "flip"); ck(&r == &x, "flip_ref");
      if (v == 0) { I y = A; bp::flip(y); is(y, -a.h, -a.l, "flip_default"); }
    }
    if (v >= 0 && fits<T>(a.l * v) && fits<T>(a.h * v)) {
      I x = A; bp::scale_up(x, tv); is(x, a.l * v, a.h * v, "scale_up");
      if (v > 0) { bp::scale_down(x, tv); is(x, a.l, a.h, "scale_up_down"); }
      I y = A; bp::scale(y, double(v));
      if (fits<int>(a.l * v) && fits<int>(a.h * v)) is(y, a.l * v, a.h * v, "scale");
    }
    if (v > 0 && std::numeric_limits<T>::is_integer) {
      // each end within one of the exact quotient, exact when divisible
      I x = A; bp::scale_down(x, tv);
      W q[2] = {W(bp::low(x)), W(bp::high(x))}, e[2] = {a.l, a.h};
      for (int k = 0; k < 2; ++k) {
        W d = q[k] * v - e[k];
        ck(d > -v && d < v, "scale_down");
      }
      ck(q[0] <= q[1], "scale_down_order");
    }
    if (fits<T>(a.l + v) && fits<T>(a.h + v)) {
      I x = A; bp::move(x, v); is(x, a.l + v, a.h + v, "move");
      I y = A; bp::convolve(y, tv); is(y, a.l + v, a.h + v, "convolve_value");
      bp::deconvolve(y, tv); is(y, a.l, a.h, "deconvolve_value");
    }
    if (fits<T>(a.l - v) && fits<T>(a.h + v)) {
      if (v >= 0) {
        I x = A; bp::bloat(x, tv); is(x, a.l - v, a.h + v, "bloat");
        I y = A; bp::bloat(y, bp::LOW, tv); is(y, a.l - v, a.h, "bloat_low");
        I z = A; bp::bloat(z, bp::HIGH, tv); is(z, a.l, a.h + v, "bloat_high");
      } else if (fits<T>(-v)) {
        // shrink by -v
        if (a.h - a.l >= -2 * v) { I x = A; bp::shrink(x, T(-v)); is(x, a.l - v, a.h + v, "shrink"); }
        if (a.h - a.l >= -v) {
          I y = A; bp::shrink(y, bp::LOW, T(-v)); is(y, a.l - v, a.h, "shrink_low");
          I z = A; bp::shrink(z, bp::HIGH, T(-v)); is(z, a.l, a.h + v, "shrink_high");
        }
      }
    }
    { I x = A; bool r = bp::encompass(x, tv); is(x, std::min(a.l, v), std::max(a.h, v), "encompass_value");
      ck(r == !(a.l <= v && v <= a.h), "encompass_value_result"); }
    if (v <= a.h) { I x = A; bp::low(x, tv); is(x, v, a.h, "set_low"); I y = A; bp::set(y, bp::LOW, tv); is(y, v, a.h, "set_LOW"); }
    if (v >= a.l) { I x = A; bp::high(x, tv); is(x, a.l, v, "set_high"); I y = A; bp::set(y, bp::HIGH, tv); is(y, a.l, v, "set_HIGH"); }
    is(A, a.l, a.h, "operand_changed");
  }
  template <class I2>
  void binary(Iw a, Iw b, const I2& B) {
    const I A = mk(a);
    bool overlapC = a.l <= b.h && b.l <= a.h;
    bool abH = b.l == a.h, abL = a.l == b.h;
    ck(bp::equivalence(A, B) == (a.l == b.l && a.h == b.h), "equivalence");
    ck(bp::contains(A, B) == (a.l <= b.l && b.h <= a.h), "contains");
    ck(bp::contains(A, B, true) == (a.l <= b.l && b.h <= a.h), "contains_touch");
    ck(bp::contains(A, B, false) == (a.l < b.l && b.h < a.h), "contains_notouch");
    ck(bp::intersects(A, B) == overlapC, "intersects");
    ck(bp::intersects(A, B, true) == overlapC, "intersects_touch");
    ck(bp::intersects(A, B, false) == (overlapC && !abH && !abL), "intersects_notouch");
    bool inAB = a.l < b.l && b.h < a.h, inBA = b.l < a.l && a.h < b.h;
    ck(bp::boundaries_intersect(A, B) == (overlapC && !inAB && !inBA), "boundaries_intersect");
    ck(bp::boundaries_intersect(A, B, true) == (overlapC && !inAB && !inBA), "boundaries_intersect_touch");
    bool cAB = a.l <= b.l && b.h <= a.h, cBA = b.l <= a.l && a.h <= b.h;
    ck(bp::boundaries_intersect(A, B, false) == (overlapC && !abH && !abL && !cAB && !cBA), "boundaries_intersect_notouch");
    ck(bp::abuts(A, B, bp::HIGH) == abH, "abuts_high");
    ck(bp::abuts(A, B, bp::LOW) == abL, "abuts_low");
    ck(bp::abuts(A, B) == (abH || abL), "abuts");
    for (int t = 0; t < 3; ++t) {
      I x = A;
      bool r = t == 0 ? bp::intersect(x, B) : bp::intersect(x, B, t == 1);
      W lo = std::max(a.l, b.l), hi = std::min(a.h, b.h);
      bool want = t == 2 ? lo < hi : lo <= hi;
      ck(r == want, "intersect_result", std::to_string(t));
      if (want) is(x, lo, hi, "intersect"); else is(x, a.l, a.h, "intersect_unchanged");
    }
    { I x = A; bp::generalized_intersect(x, B);
      W lo = std::max(a.l, b.l), hi = std::min(a.h, b.h);
      is(x, std::min(lo, hi), std::max(lo, hi), "generalized_intersect"); }
    { I x = A; bool r = bp::encompass(x, B); is(x, std::min(a.l, b.l), std::max(a.h, b.h), "encompass"); ck(r == !cAB, "encompass_result"); }
    { I x = A; bool r = bp::join_with(x, B); ck(r == (abH || abL), "join_with_result");
      if (abH || abL) is(x, std::min(a.l, b.l), std::max(a.h, b.h), "join_with"); else is(x, a.l, a.h, "join_with_unchanged"); }
    W d = b.l > a.h ? b.l - a.h : a.l > b.h ? a.l - b.h : 0;
    if (fits<ll>(a.l - b.h) && fits<ll>(b.l - a.h)) ck(W(bp::euclidean_distance(A, B)) == d, "distance");
    if (fits<T>(a.l + b.l) && fits<T>(a.h + b.h)) { I x = A; bp::convolve(x, B); is(x, a.l + b.l, a.h + b.h, "convolve");
      bp::deconvolve(x, B); is(x, a.l, a.h, "deconvolve"); }
    if (fits<T>(a.l - b.h) && fits<T>(a.h - b.l)) { I x = A; bp::reflected_convolve(x, B); is(x, a.l - b.h, a.h - b.l, "reflected_convolve");
      bp::reflected_deconvolve(x, B); is(x, a.l, a.h, "reflected_deconvolve"); }
    is(A, a.l, a.h, "operand_changed");
    if (W(bp::low(B)) != b.l || W(bp::high(B)) != b.h) fail("operand2_changed");
  }
};
std::string sw(Iw a) { return "[" + std::to_string((ll)a.l) + "," + std::to_string((ll)a.h) + "]"; }

template <class I, class I2, class T>
void reg(mc::Engine& e, const std::string& name, std::vector<W> vals, bool ops) {
  std::vector<Iw> ivs;
  for (size_t i = 0; i < vals.size(); ++i)
    for (size_t j = i; j < vals.size(); ++j) ivs.push_back(Iw{vals[i], vals[j]});
  e.add("pair/" + name, ivs.size() * ivs.size(), [=](mc::u64 i, mc::Case& c) {
    Iw a = ivs[i % ivs.size()], b = ivs[i / ivs.size()];
    std::string d = sw(a) + " " + sw(b);
    c.input(d);
    Ops<I, T> o{c, d};
    o.binary(a, b, bp::construct<I2>(T(b.l), T(b.h)));
    c.state(mc::mix(mc::mix(u_int64_t(a.l) * 31 + u_int64_t(a.h), u_int64_t(b.l)), u_int64_t(b.h)));
    if (a.h > a.l && b.h > b.l) c.nontrivial(mc::mix(mc::mix(u_int64_t(a.l) * 31 + u_int64_t(a.h), u_int64_t(b.l)), u_int64_t(b.h)));
  });
  e.add("value/" + name, ivs.size() * vals.size(), [=](mc::u64 i, mc::Case& c) {
    Iw a = ivs[i % ivs.size()];
    W v = vals[i / ivs.size()];
    std::string d = sw(a) + " value=" + std::to_string((ll)v);
    c.input(d);
    Ops<I, T> o{c, d};
    o.unary(a, v);
    c.state(mc::mix(mc::mix(u_int64_t(a.l) * 31 + u_int64_t(a.h), u_int64_t(v)), 7));
    if (a.h > a.l) c.nontrivial(mc::mix(mc::mix(u_int64_t(a.l) * 31 + u_int64_t(a.h), u_int64_t(v)), 7));
  });
  (void)ops;
}
// comparison operators of interval_data: lexicographic
template <class T>
void cmp(mc::Engine& e, const std::string& name, std::vector<W> vals) {
  mc::u64 n = vals.size();
  e.add("order/" + name, n * n * n * n, [=](mc::u64 i, mc::Case& c) {
    mc::Digits d(i);
    W a = vals[d.take(n)], b = vals[d.take(n)], p = vals[d.take(n)], q = vals[d.take(n)];
    bp::interval_data<T> A((T)a, (T)b), B((T)p, (T)q);
    c.input(sw(Iw{a, b}) + " " + sw(Iw{p, q}));
    bool lt = a < p || (a == p && b < q), eq = a == p && b == q;
    c.step(6);
    c.require((A == B) == eq && (A != B) == !eq && (A < B) == lt && (A <= B) == (lt || eq) && (A > B) == (!lt && !eq) && (A >= B) == !lt, "order");
    c.nontrivial(i);
  });
}
}  // namespace

MC_REGISTER(e) {
  std::vector<W> small, ext, extl;
  int k = e.thorough() ? 14 : 8;
  for (int i = -k; i <= k; ++i) small.push_back(i);
  W M = std::numeric_limits<int>::max(), m = std::numeric_limits<int>::min();
  W ex[] = {m, m + 1, m + 2, m / 2 - 1, m / 2, -65537, -3, -2, -1, 0, 1, 2, 3, 65536, M / 2, M / 2 + 1, M - 2, M - 1, M};
  ext.assign(ex, ex + 19);
  W B = W(1) << 62;
  W el[] = {-B, -B + 1, -B / 2, m - 1, -1, 0, 1, M + 1, W(1) << 40, B / 2, B - 1, B};
  extl.assign(el, el + 12);
  typedef bp::interval_data<int> ID;
  typedef bp::interval_data<ll> IL;
  typedef bp::interval_data<double> DD;
  reg<ID, ID, int>(e, "int", small, true);
  reg<ID, ID, int>(e, "int-extreme", ext, true);
  reg<cust::Iv<int>, ID, int>(e, "user-lib", small, true);
  reg<ID, cust::Iv<int>, int>(e, "lib-user-extreme", ext, true);
  reg<cust::Iv<int>, cust::Iv<int>, int>(e, "user-user-extreme", ext, true);
  reg<IL, IL, ll>(e, "longlong", extl, true);
  reg<DD, DD, double>(e, "double", small, true);
  reg<DD, DD, double>(e, "double-big", ext, true);
  reg<bp::interval_data<float>, bp::interval_data<float>, float>(e, "float", small, true);
  if (e.thorough()) {
    // every power of two and its neighbours
    std::vector<W> pw;
    for (int b = 0; b < 32; b += 2)
      for (int d = -1; d <= 1; ++d)
        for (int sg = -1; sg <= 1; sg += 2) {
          W v = sg * ((W(1) << b) + d);
          if (v >= m && v <= M) pw.push_back(v);
        }
    std::sort(pw.begin(), pw.end());
    pw.erase(std::unique(pw.begin(), pw.end()), pw.end());
    reg<ID, ID, int>(e, "int-powers", pw, true);
    reg<IL, IL, ll>(e, "longlong-powers", pw, true);
  }
  cmp<int>(e, "int", std::vector<W>(ext.begin() + 4, ext.begin() + 12));
  cmp<double>(e, "double", std::vector<W>(ext.begin() + 5, ext.begin() + 11));
}
