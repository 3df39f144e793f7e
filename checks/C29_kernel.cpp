// C29: the numeric kernel of the Voronoi builder on structured operands (limb
// boundaries, carries, borrows, cancellations, extreme exponents), against
// arbitrary-precision arithmetic.
#include "mc.hpp"
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/polygon/detail/voronoi_ctypes.hpp>
#include <boost/polygon/detail/voronoi_robust_fpt.hpp>
#include <boost/polygon/detail/voronoi_structures.hpp>
#include <boost/polygon/voronoi_geometry_type.hpp>
#include <boost/polygon/detail/voronoi_predicates.hpp>
#include <cmath>
#include <limits>
#include <memory>
#include <set>
namespace mp = boost::multiprecision;
namespace bd = boost::polygon::detail;
typedef mp::cpp_int Z;
typedef mp::number<mp::cpp_bin_float<1200, mp::digit_base_2>> R;
typedef std::uint32_t u32;
typedef std::int64_t i64;
using mc::u64;

namespace {
const double EPS = std::numeric_limits<double>::epsilon();  // 2^-52

std::string zs(const Z& z) { return z.str(); }
std::string ds(double d) {
  char b[40];
  snprintf(b, sizeof b, "%a", d);
  return b;
}
// ---------------------------------------------------------------- extended_int
template <std::size_t N>
bd::extended_int<N> mk(const Z& z) {
  Z a = abs(z);
  std::vector<u32> c;
  while (a != 0) {
    c.insert(c.begin(), u32(a & 0xFFFFFFFFu));
    a >>= 32;
  }
  return bd::extended_int<N>(c, z >= 0);
}
template <std::size_t N>
Z val(const bd::extended_int<N>& e) {
  Z r = 0;
  for (std::size_t i = e.size(); i-- > 0;) r = (r << 32) + e.chunks()[i];
  return e.count() < 0 ? Z(-r) : r;
}
template <std::size_t N>
struct IntOps {
  mc::Case& c;
  std::string desc;
  typedef bd::extended_int<N> E;
  void fail(const char* op, const std::string& m) { c.fail(op, std::string(op) + ": " + desc + " " + m); }
  static Z trunc(const Z& z) {  // results wider than N limbs wrap
    Z m = (Z(1) << (32 * N)) - 1;
    return z < 0 ? Z(-(Z(abs(z)) & m)) : Z(z & m);
  }
  void is(const E& e, const Z& z, const char* op) {
    c.step();
    if (val(e) != z) fail(op, "got " + zs(val(e)) + " want " + zs(z));
    conv(e, z, op);
  }
  void conv(const E& e, const Z& z, const char* op) {
    std::string o = std::string(op) + " then ";
    if (e.is_pos() != (z > 0) || e.is_neg() != (z < 0) || e.is_zero() != (z == 0)) fail("sign", o + "sign of " + zs(z));
    if (bd::is_pos(e) != (z > 0) || bd::is_neg(e) != (z < 0) || bd::is_zero(e) != (z == 0)) fail("sign-fn", o + "sign of " + zs(z));
    if (!(e == mk<N>(z)) || e != mk<N>(z) || e < mk<N>(z) || e > mk<N>(z) || !(e <= mk<N>(z)) || !(e >= mk<N>(z))) fail("equal", o + "comparison with an equal " + zs(z));
    // conversion: within one unit roundoff of 2^-52
    bd::type_converter_efpt te;
    bd::extended_exponent_fpt<double> x = te(e);
    if (x.is_pos() != (z > 0) || x.is_neg() != (z < 0) || x.is_zero() != (z == 0)) fail("efpt-sign", o + zs(z));
    std::pair<double, int> p = e.p();
    R w = mp::ldexp(R(p.first), p.second), t(z);
    if (abs(w - t) > abs(t) * EPS) fail("p", o + zs(z) + " got " + ds(p.first) + "*2^" + std::to_string(p.second));
    if (abs(t) < mp::ldexp(R(1), 1023)) {
      bd::type_converter_fpt tf;
      double d = e.d();
      if (d != tf(e) || abs(R(d) - t) > abs(t) * EPS) fail("d", o + zs(z) + " got " + ds(d));
      if (x.d() != d) fail("efpt-d", o + zs(z));
    }
  }
  void pair(const Z& a, const Z& b) {
    E A = mk<N>(a), B = mk<N>(b);
    auto fits = [](const Z& z) { return z == trunc(z); };
    if (fits(a + b)) is(A + B, a + b, "add");
    if (fits(a - b)) is(A - B, a - b, "sub");
    if (fits(a * b)) is(A * B, a * b, "mul");
    E t;
    if (fits(a - b)) {
      t = A;
      is(t = t - B, a - b, "sub-assign");
      if (fits((a - b) + b)) is((A - B) + B, a, "sub-add");
      if (fits((a - b) * (a - b))) is((A - B) * (A - B), (a - b) * (a - b), "sub-mul");
      if (fits((a - b) * b)) is((A - B) * B, (a - b) * b, "sub-mul-b");
      is(-(A - B), b - a, "neg-sub");
    }
    c.step(6);
    if ((A < B) != (a < b)) fail("less", "");
    if ((A > B) != (a > b)) fail("greater", "");
    if ((A <= B) != (a <= b)) fail("less-equal", "");
    if ((A >= B) != (a >= b)) fail("greater-equal", "");
    if ((A == B) != (a == b)) fail("equals", "");
    if ((A != B) != (a != b)) fail("not-equals", "");
    // mixed widths
    bd::extended_int<2 * N> W(A), V;
    V = B;
    if (val(W) != a || val(V) != b) fail("widen", "");
    if (val(W + V) != a + b || val(W - V) != a - b || val(W * V) != a * b) fail("wide-op", "");
  }
};
std::vector<Z> limbValues(const std::vector<u32>& l, int n) {
  std::vector<Z> r;
  std::vector<u64> cnt;
  u64 tot = mc::ipow(l.size(), n);
  std::set<Z> s;
  for (u64 i = 0; i < tot; ++i) {
    mc::Digits d(i);
    Z z = 0;
    for (int k = 0; k < n; ++k) z = (z << 32) + l[d.take(unsigned(l.size()))];
    s.insert(z);
    s.insert(Z(-z));
  }
  return std::vector<Z>(s.begin(), s.end());
}
template <std::size_t N>
void ints(mc::Engine& e, const std::string& nm, const std::vector<u32>& l, int n) {
  auto v = std::make_shared<std::vector<Z>>(limbValues(l, n));
  e.add("int" + std::to_string(N) + "-" + nm, v->size() * v->size(), [v](u64 i, mc::Case& c) {
    const Z &a = (*v)[i % v->size()], &b = (*v)[i / v->size()];
    IntOps<N> o{c, a.str() + " , " + b.str()};
    c.input(o.desc);
    o.pair(a, b);
    c.nontrivial(mc::mix(i, N * 100 + v->size()));
  });
}
const std::vector<i64>& smallInts() {
  static std::vector<i64> v;
  if (v.empty()) {
    const i64 b[] = {0, 1, 2, 3, 5, 0x7FFFFFFFLL, 0x80000000LL, 0xFFFFFFFFLL, 0x100000000LL, 0x100000001LL, 0x1FFFFFFFFLL, 0x7FFFFFFFFFFFFFFFLL, 0x7FFFFFFF00000000LL, 0x4000000000000000LL, 0x00000001FFFFFFFFLL};
    for (i64 x : b) {
      v.push_back(x);
      v.push_back(-x);
    }
  }
  return v;
}
// conversions from built-in integers and products with them
void builtins(u64 i, mc::Case& c) {
  const std::vector<i64>& v = smallInts();
  i64 a = v[i % v.size()], b = v[i / v.size()];
  IntOps<64> o{c, std::to_string(a) + " , " + std::to_string(b)};
  c.input(o.desc);
  typedef bd::extended_int<64> E;
  E A((i64(a))), B;
  B = i64(b);
  o.is(A, a, "from-int64");
  o.is(B, b, "assign-int64");
  o.is(A * i64(b), Z(a) * b, "times-int64");
  if (a == i64(int(a))) {
    E C((int(a)));
    o.is(C, a, "from-int32");
    C = B;
    C = int(a);
    o.is(C, a, "assign-int32");
    o.is(B * int(a), Z(a) * b, "times-int32");
  }
  o.is(A * B + A, Z(a) * b + a, "mul-add");
  o.is(A * B - B * B, Z(a) * b - Z(b) * b, "mul-sub");
  c.nontrivial(i);
}
// ------------------------------------------------------- extended_exponent_fpt
struct FV {
  double v;
  int e;
};
std::vector<FV> fvals() {
  const double m[] = {0, 1, -1, 1.5, -1.75, 1 + EPS, -(1 + EPS), 2 - EPS, 0.75, -0.1};
  const int x[] = {0, 1, -1, 2, -3, 52, 53, 54, 55, 56, 60, -53, -54, -55, -60, 1000, -1000, 5000, 5001, 5054, 5055, 5056, -5055};
  std::vector<FV> r;
  for (double a : m)
    for (int e : x) r.push_back({a, e});
  return r;
}
void efpts(u64 i, mc::Case& c) {
  static const std::vector<FV> v = fvals();
  FV a = v[i % v.size()], b = v[i / v.size()];
  typedef bd::extended_exponent_fpt<double> X;
  std::string desc = ds(a.v) + "*2^" + std::to_string(a.e) + " , " + ds(b.v) + "*2^" + std::to_string(b.e);
  c.input(desc);
  X A(a.v, a.e), B(b.v, b.e), O(0.0);
  R ra = mp::ldexp(R(a.v), a.e), rb = mp::ldexp(R(b.v), b.e);
  // exact comparison through a quotient, as the value may exceed double
  auto is = [&](const X& x, const R& r, const char* op) {
    c.step();
    if (bd::is_pos(x) != (r > 0) || bd::is_neg(x) != (r < 0) || bd::is_zero(x) != (r == 0)) c.fail(op, std::string(op) + " sign: " + desc);
    if (r == 0) return;
    int e = int(mp::ilogb(r));
    double q = (x * X(1.0, -e)).d();
    R w = mp::ldexp(r, -e);
    if (abs(R(q) - w) > abs(w) * EPS) c.fail(op, std::string(op) + ": " + desc + " got " + ds(q) + "*2^" + std::to_string(e) + " want " + w.str(25));
  };
  is(A, ra, "value");
  is(-A, -ra, "neg");
  is(A + B, ra + rb, "add");
  is(A - B, ra - rb, "sub");
  is(A * B, ra * rb, "mul");
  X t = A;
  t += B;
  is(t, ra + rb, "add-assign");
  t = A;
  t -= B;
  is(t, ra - rb, "sub-assign");
  t = A;
  t *= B;
  is(t, ra * rb, "mul-assign");
  if (b.v != 0) {
    is(A / B, ra / rb, "div");
    t = A;
    t /= B;
    is(t, ra / rb, "div-assign");
    is((A * O) + B, rb, "zero-add");
    is(B + (A * O), rb, "add-zero");
    is(B - (A * O), rb, "sub-zero");
    is((A * O) - B, -rb, "zero-sub");
    is((A - A) + B, rb, "cancel-add");
    is(B + (A - A), rb, "add-cancel");
  }
  if (a.v >= 0) {
    is(A.sqrt(), sqrt(ra), "sqrt");
    is(bd::get_sqrt(A), sqrt(ra), "get_sqrt");
  }
  c.nontrivial(i);
}
// ------------------------------------------------------------------------ ulps
void ulps(u64 i, mc::Case& c) {
  static const double base[] = {0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 1e-300, -1e-300, 5e-324, 1e300, 3.0, 4503599627370496.0, -2147483648.0, 1.0 / 3};
  const int nb = sizeof base / sizeof *base;
  mc::Digits d(i);
  double a = base[d.take(nb)], b = base[d.take(nb)];
  int sa = int(d.take(9)) - 4, sb = int(d.take(9)) - 4;
  static const unsigned mx[] = {0, 1, 2, 3, 8, 64, 128};
  unsigned m = mx[d.take(7)];
  auto mv = [](double x, int k) {
    for (; k > 0; --k) x = std::nextafter(x, 1e308 * 10);
    for (; k < 0; ++k) x = std::nextafter(x, -1e308 * 10);
    return x;
  };
  a = mv(a, sa);
  b = mv(b, sb);
  // rank of a double on the line of all doubles
  auto rank = [](double x) -> __int128 {
    u64 u;
    memcpy(&u, &x, 8);
    return (u >> 63) ? -__int128(u & 0x7FFFFFFFFFFFFFFFULL) : __int128(u);
  };
  std::string desc = ds(a) + " , " + ds(b) + " ulps " + std::to_string(m);
  c.input(desc);
  bd::ulp_comparison<double> cmp;
  __int128 k = rank(a) - rank(b);
  auto w = (k < 0 ? -k : k) <= m ? bd::ulp_comparison<double>::EQUAL : k < 0 ? bd::ulp_comparison<double>::LESS : bd::ulp_comparison<double>::MORE;
  c.step();
  if (cmp(a, b, m) != w) c.fail("ulp", "ulp comparison: " + desc);
  c.nontrivial(i);
}
// ------------------------------------------------------- robust_fpt, robust_dif
void robust(u64 i, mc::Case& c) {
  static const double v[] = {1, -1, 3, -3, 0.1, -0.1, 1 + EPS, -(1 + EPS), 1e10, -1e10, 4503599627370497.0, 1 - EPS / 2};
  const int nv = sizeof v / sizeof *v;
  static const double er[] = {0, 1, 4, 16};
  mc::Digits d(i);
  double a = v[d.take(nv)], b = v[d.take(nv)];
  double ea = er[d.take(4)], eb = er[d.take(4)];
  std::string desc = ds(a) + "(" + std::to_string(ea) + ") , " + ds(b) + "(" + std::to_string(eb) + ")";
  c.input(desc);
  typedef bd::robust_fpt<double> F;
  F A(a, ea), B(b, eb);
  auto bound = [&](const F& x, const R& lo, const R& hi, const char* op) {
    // every exact value consistent with the inputs is within re EPS of the result
    c.step();
    if (x.fpv() == 0) {
      if (!(x.re() > 1e300) && !std::isnan(x.re()) && !(lo == 0 && hi == 0)) c.fail(op, std::string(op) + " claims a bound at zero: " + desc);
      return;
    }
    R f(x.fpv()), t = abs(f) * R(x.re()) * EPS * R(1 + 64 * EPS * 64);
    if (abs(lo - f) > t || abs(hi - f) > t) c.fail(op, std::string(op) + ": " + desc + " error bound " + std::to_string(x.re()) + " too small");
    if (x.ulp() != x.re() || bd::is_pos(x) != (x.fpv() > 0) || bd::is_neg(x) != (x.fpv() < 0) || bd::is_zero(x) != (x.fpv() == 0)) c.fail(op, std::string(op) + " accessors: " + desc);
  };
  // the input errors are taken as relative to the stored value
  R ra[2] = {R(a) * (1 - R(ea) * EPS), R(a) * (1 + R(ea) * EPS)}, rb[2] = {R(b) * (1 - R(eb) * EPS), R(b) * (1 + R(eb) * EPS)};
  for (int p = 0; p < 4; ++p) {
    R x = ra[p & 1], y = rb[p >> 1];
    F t;
    bound(A + B, x + y, x + y, "add");
    bound(A - B, x - y, x - y, "sub");
    bound(A * B, x * y, x * y, "mul");
    bound(A / B, x / y, x / y, "div");
    bound(-A, -x, -x, "neg");
    t = A; t += B; bound(t, x + y, x + y, "add-assign");
    t = A; t -= B; bound(t, x - y, x - y, "sub-assign");
    t = A; t *= B; bound(t, x * y, x * y, "mul-assign");
    t = A; t /= B; bound(t, x / y, x / y, "div-assign");
    if (a > 0) bound(A.sqrt(), sqrt(x), sqrt(x), "sqrt");
    if (a > 0) bound(bd::get_sqrt(A), sqrt(x), sqrt(x), "get_sqrt");
  }
  c.nontrivial(i);
}
void difs(u64 i, mc::Case& c) {
  static const double v[] = {0, 1, -1, 2, -3, 0.5};
  mc::Digits d(i);
  double p1 = std::fabs(v[d.take(6)]), n1 = std::fabs(v[d.take(6)]), p2 = std::fabs(v[d.take(6)]), n2 = std::fabs(v[d.take(6)]), s = v[d.take(6)];
  typedef bd::robust_dif<double> D;
  std::string desc = ds(p1) + "-" + ds(n1) + " , " + ds(p2) + "-" + ds(n2) + " , " + ds(s);
  c.input(desc);
  D A(p1, n1), B(p2, n2);
  double a = p1 - n1, b = p2 - n2;
  auto is = [&](const D& x, double w, const char* op) {
    c.step();
    if (x.dif() != w || x.pos() < 0 || x.neg() < 0 || x.pos() - x.neg() != w) c.fail(op, std::string("dif ") + op + ": " + desc + " got " + ds(x.dif()) + " want " + ds(w));
  };
  is(A, a, "value");
  is(-A, -a, "neg");
  is(D(s), s, "from-value");
  is(A + B, a + b, "add");
  is(A - B, a - b, "sub");
  is(A * B, a * b, "mul");
  is(A + s, a + s, "add-value");
  is(s + A, a + s, "value-add");
  is(A - s, a - s, "sub-value");
  is(s - A, s - a, "value-sub");
  is(A * s, a * s, "mul-value");
  is(s * A, a * s, "value-mul");
  D t;
  is(t, 0, "default");
  t = A; t += B; is(t, a + b, "add-assign");
  t = A; t -= B; is(t, a - b, "sub-assign");
  t = A; t *= B; is(t, a * b, "mul-assign");
  t = A; t += s; is(t, a + s, "add-assign-value");
  t = A; t -= s; is(t, a - s, "sub-assign-value");
  t = A; t *= s; is(t, a * s, "mul-assign-value");
  if (s == 1 || s == -1 || s == 2 || s == 0.5) {
    is(A / s, a / s, "div-value");
    t = A; t /= s; is(t, a / s, "div-assign-value");
  }
  c.nontrivial(i);
}
// ------------------------------------------------------------ robust_sqrt_expr
typedef bd::extended_int<64> BI;
typedef bd::extended_exponent_fpt<double> EF;
typedef bd::robust_sqrt_expr<BI, EF, bd::type_converter_efpt> SE;
void sqrtCase(int n, const Z* A, const Z* B, mc::Case& c) {
  std::string desc;
  for (int k = 0; k < n; ++k) desc += A[k].str() + "*sqrt(" + B[k].str() + ") ";
  c.input(desc);
  BI a[5], b[5];
  R w = 0;
  for (int k = 0; k < n; ++k) {
    a[k] = mk<64>(A[k]);
    b[k] = mk<64>(B[k]);
    w += R(A[k]) * sqrt(R(B[k]));
  }
  SE se;
  int lim[] = {0, SE::MAX_RELATIVE_ERROR_EVAL1, SE::MAX_RELATIVE_ERROR_EVAL2, SE::MAX_RELATIVE_ERROR_EVAL3, SE::MAX_RELATIVE_ERROR_EVAL4};
  EF x = n == 1 ? se.eval1(a, b) : n == 2 ? se.eval2(a, b) : n == 3 ? se.eval3(a, b) : se.eval4(a, b);
  c.step();
  R sc = 0;
  for (int k = 0; k < n; ++k) sc += abs(R(A[k])) * sqrt(R(B[k]));
  bool zero = abs(w) <= sc * mp::ldexp(R(1), -1000);
  if (zero) {
    if (!x.is_zero()) c.fail("sqrt-zero", "expression is zero: " + desc + " got " + ds(x.d()));
    return;
  }
  if (x.is_pos() != (w > 0) || x.is_neg() != (w < 0)) c.fail("sqrt-sign", "sign of eval" + std::to_string(n) + ": " + desc + " want " + w.str(20));
  int e = int(mp::ilogb(w));
  double q = (x * EF(1.0, -e)).d();
  R r = mp::ldexp(w, -e);
  if (abs(R(q) - r) > abs(r) * EPS * lim[n]) c.fail("sqrt-error", "eval" + std::to_string(n) + ": " + desc + " relative error " + R(abs(R(q) - r) / abs(r) / EPS).str(6) + " EPS");
}
std::vector<Z> avals(int k) {
  std::vector<Z> v = {0, 1, -1, 2, -3};
  if (k >= 2) v.insert(v.end(), {Z(1) << 32, -(Z(1) << 32), (Z(1) << 64) - 1, -((Z(1) << 64) - 1)});
  if (k >= 3) v.insert(v.end(), {Z(7), -7, (Z(1) << 128) + 1, -((Z(1) << 200) - 1), (Z(1) << 200) + 1, Z("-123456789012345678901234567890")});
  return v;
}
std::vector<Z> bvals(int k) {
  std::vector<Z> v = {0, 1, 2, 8};
  if (k >= 2) v.insert(v.end(), {(Z(1) << 64) + 1, Z(1) << 130});
  if (k >= 3) v.insert(v.end(), {Z(3), (Z(1) << 65) - 1, (Z(1) << 260) - 1, Z("98765432109876543210987654321")});
  return v;
}
void sq(mc::Engine& e, int n, int lvl) {
  auto A = std::make_shared<std::vector<Z>>(avals(lvl)), B = std::make_shared<std::vector<Z>>(bvals(lvl));
  e.add("sqrt" + std::to_string(n) + "-" + std::to_string(lvl), mc::ipow(A->size() * B->size(), n), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    Z a[4], b[4];
    for (int k = 0; k < n; ++k) {
      a[k] = (*A)[d.take(unsigned(A->size()))];
      b[k] = (*B)[d.take(unsigned(B->size()))];
    }
    sqrtCase(n, a, b, c);
    c.nontrivial(mc::mix(i, n * 10 + lvl));
  });
}
// almost cancelling sums: x*sqrt(b) against the neighbours of its value
void nearCancel(u64 i, mc::Case& c) {
  mc::Digits d(i);
  static const char* bs[] = {"2", "3", "5", "18446744073709551617", "340282366920938463463374607431768211455", "12345678910111213141516171819"};
  Z b = Z(bs[d.take(6)]);
  unsigned sh = 1 + 13 * d.take(20);
  Z x = (Z(1) << sh) - Z(d.take(3));
  Z y = sqrt(Z(x * x * b)) + Z(int(d.take(3)) - 1);  // floor root, and neighbours
  unsigned k = d.take(3);
  bool sw = d.take(2);
  Z A[4] = {x, -y, 0, 0}, B[4] = {b, 1, 1, 1};
  if (sw) std::swap(A[0], A[1]), std::swap(B[0], B[1]);
  if (k == 0) {
    sqrtCase(2, A, B, c);
  } else if (k == 1) {
    A[2] = x; B[2] = b + 1;
    std::swap(A[1], A[2]); std::swap(B[1], B[2]);  // x sqrt b + x sqrt(b+1) - (floor of the sum)
    Z z = sqrt(Z(x * x * b)) + sqrt(Z(x * x * (b + 1)));
    A[2] = -z;
    B[2] = 1;
    A[sw ? 1 : 0] = x; B[sw ? 1 : 0] = b;
    A[sw ? 0 : 1] = x; B[sw ? 0 : 1] = b + 1;
    sqrtCase(3, A, B, c);
  } else {
    A[0] = x; B[0] = b;
    A[1] = x + 1; B[1] = b + 2;
    A[2] = -x; B[2] = b + 2;
    A[3] = -(x + (sw ? 1 : 0)); B[3] = b;
    sqrtCase(4, A, B, c);
  }
  c.nontrivial(i);
}
// ------------------------------------------------------------------ predicates
typedef bd::voronoi_predicates<bd::voronoi_ctype_traits<bd::int32>> VP;
const std::vector<i64>& difsv() {
  static const std::vector<i64> v = {0, 1, -1, 2, 3, -5, 0x7FFFFFFF, -0x7FFFFFFFLL, 0x80000000LL, -0x80000000LL, 0xFFFFFFFFLL, -0xFFFFFFFFLL, 0xFFFFFFFELL, -0xFFFFFFFELL, 0xB504F333LL, -65537};
  return v;
}
void crossp(u64 i, mc::Case& c) {
  const std::vector<i64>& v = difsv();
  mc::Digits d(i);
  unsigned n = unsigned(v.size());
  i64 a1 = v[d.take(n)], b1 = v[d.take(n)], a2 = v[d.take(n)], b2 = v[d.take(n)];
  std::string desc = std::to_string(a1) + "," + std::to_string(b1) + " x " + std::to_string(a2) + "," + std::to_string(b2);
  c.input(desc);
  __int128 w = __int128(a1) * b2 - __int128(b1) * a2;
  double g = VP::robust_cross_product(a1, b1, a2, b2);
  c.step(2);
  int sw = (w > 0) - (w < 0), sg = (g > 0) - (g < 0);
  if (sw != sg) c.fail("cross-sign", "sign of the cross product: " + desc);
  if (std::fabs((long double)g - (long double)w) > std::fabs((long double)w) * EPS) c.fail("cross-error", "cross product: " + desc + " got " + ds(g));
  VP::ot::Orientation o = VP::ot::eval(a1, b1, a2, b2);
  if (int(o) != sw) c.fail("orientation", "orientation of differences: " + desc);
  c.nontrivial(i);
}
const std::vector<int>& coords() {
  static const std::vector<int> v = {std::numeric_limits<int>::min(), std::numeric_limits<int>::min() + 1, -1, 0, 1, std::numeric_limits<int>::max() - 1, std::numeric_limits<int>::max()};
  return v;
}
typedef bd::point_2d<int> VPt;
void orient(u64 i, mc::Case& c) {
  const std::vector<int>& v = coords();
  mc::Digits d(i);
  VPt p[3];
  for (auto& q : p) {
    int x = v[d.take(7)], y = v[d.take(7)];
    q = VPt(x, y);
  }
  std::string desc;
  for (auto& q : p) desc += "(" + std::to_string(q.x()) + "," + std::to_string(q.y()) + ") ";
  c.input(desc);
  // exact: (p2-p1) x (p3-p2), up to 2 * 2^64
  __int128 w = (__int128(p[0].x()) - p[1].x()) * (__int128(p[1].y()) - p[2].y()) - (__int128(p[0].y()) - p[1].y()) * (__int128(p[1].x()) - p[2].x());
  c.step();
  if (int(VP::ot::eval(p[0], p[1], p[2])) != (w > 0) - (w < 0)) c.fail("orientation", "orientation of points: " + desc);
  c.nontrivial(i);
}
// order of site events: strict weak ordering, by x, then as documented
typedef bd::site_event<int> SE2;
typedef VP::event_comparison_predicate<SE2, bd::circle_event<double>> EC;
typedef VP::point_comparison_predicate<VPt> PC;
std::vector<SE2> eventSites(int n) {
  std::vector<int> xs;
  if (n == 3)
    xs = {-1, 0, 2};
  else
    xs = {std::numeric_limits<int>::min(), 0, std::numeric_limits<int>::max()};
  std::vector<SE2> r;
  std::vector<VPt> p;
  for (int x : xs)
    for (int y : xs) p.push_back(VPt(x, y));
  for (auto& a : p) r.push_back(SE2(a));
  for (auto& a : p)
    for (auto& b : p)
      if (PC()(a, b)) r.push_back(SE2(a, b));
  return r;
}
std::string es(const SE2& s) {
  return "(" + std::to_string(s.x0()) + "," + std::to_string(s.y0()) + (s.is_segment() ? " " + std::to_string(s.x1()) + "," + std::to_string(s.y1()) : "") + ")";
}
void events(int kind, u64 i, mc::Case& c) {
  static const std::vector<SE2> S[2] = {eventSites(3), eventSites(0)};
  const std::vector<SE2>& v = S[kind];
  mc::Digits d(i);
  unsigned n = unsigned(v.size());
  const SE2 &a = v[d.take(n)], &b = v[d.take(n)], &g = v[d.take(n)];
  std::string desc = es(a) + " " + es(b) + " " + es(g);
  c.input(desc);
  EC lt;
  c.step(3);
  // documented order: x of the start; points and vertical segments of one x by
  // y (a point before the segment above it), other segments after them by y,
  // then clockwise
  auto key = [](const SE2& s) { return s.is_segment() && s.x0() != s.x1() ? 1 : 0; };
  auto less = [&](const SE2& p, const SE2& q) {
    if (p.x0() != q.x0()) return p.x0() < q.x0();
    if (key(p) != key(q)) return key(p) < key(q);
    if (p.y0() != q.y0()) return p.y0() < q.y0();
    if (!key(p)) return !p.is_segment() && q.is_segment();
    __int128 w = (__int128(p.x1()) - p.x0()) * (__int128(q.y1()) - q.y0()) - (__int128(p.y1()) - p.y0()) * (__int128(q.x1()) - q.x0());
    return w < 0;  // p counter-clockwise of q
  };
  if (lt(a, b) != less(a, b)) c.fail("event-order", "order of site events: " + desc);
  if (lt(a, a)) c.fail("event-irreflexive", desc);
  if (lt(a, b) && lt(b, a)) c.fail("event-asymmetric", desc);
  if (lt(a, b) && lt(b, g) && !lt(a, g)) c.fail("event-transitive", desc);
  c.nontrivial(mc::mix(i, kind));
}
}  // namespace
MC_REGISTER(e) {
  const std::vector<u32> L7 = {0, 1, 2, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFEu, 0xFFFFFFFFu}, L3 = {0, 1, 0xFFFFFFFFu}, L2 = {0, 0xFFFFFFFFu};
  ints<64>(e, "3limbs-of-7", L7, e.thorough() ? 3 : 2);
  ints<64>(e, "5limbs-of-3", L3, e.thorough() ? 6 : 4);
  ints<64>(e, "7limbs-of-2", L2, e.thorough() ? 8 : 7);
  ints<4>(e, "3limbs-of-3", L3, e.thorough() ? 4 : 3);
  e.add("int-builtin", smallInts().size() * smallInts().size(), builtins);
  e.add("efpt", fvals().size() * fvals().size(), efpts);
  e.add("ulp", 14 * 14 * 81 * 7, ulps);
  e.add("robust-fpt", 12 * 12 * 16, robust);
  e.add("robust-dif", mc::ipow(6, 5), difs);
  sq(e, 1, 3);
  sq(e, 2, 2);
  sq(e, 3, 1);
  e.add("sqrt-near", 6 * 20 * 3 * 3 * 3 * 2, nearCancel);
  e.add("cross", mc::ipow(difsv().size(), 4), crossp);
  e.add("orient", mc::ipow(7, 6), orient);
  e.add("events-small", mc::ipow(eventSites(3).size(), 3), [](u64 i, mc::Case& c) { events(0, i, c); });
  e.add("events-extreme", mc::ipow(eventSites(0).size(), 3), [](u64 i, mc::Case& c) { events(1, i, c); });
  if (!e.thorough()) return;
  sq(e, 2, 3);
  sq(e, 3, 2);
  sq(e, 4, 1);
}
