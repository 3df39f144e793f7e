// C21: the complete algebra of orientations, directions, axis transformations
// (all 8, all 64 pairs, all 512 triples), rigid transformations over a lattice
// of translations and anisotropic scale factors, and their action on every kind
// of object, against 2x2 integer matrices written out here.
#include "mc.hpp"
#include "cust.hpp"
#include <limits>
namespace bp = boost::polygon;
typedef long long ll;

namespace {
// the definition: image of EAST and image of NORTH for each value of the enum,
// taken from the table in transform.hpp's documentation
struct M {
  int a, b, c, d;  // x' = a x + b y ; y' = c x + d y
};
enum { E_, N_, W_, S_ };
const int DX[4] = {1, 0, -1, 0}, DY[4] = {0, 1, 0, -1};
const int IMG[8][2] = {{E_, N_}, {W_, N_}, {E_, S_}, {W_, S_}, {N_, E_}, {S_, E_}, {N_, W_}, {S_, W_}};
M mat(int t) { return M{DX[IMG[t][0]], DX[IMG[t][1]], DY[IMG[t][0]], DY[IMG[t][1]]}; }
template <class T>
void app(const M& m, T x, T y, T& ox, T& oy) {
  ox = T(m.a * x + m.b * y);
  oy = T(m.c * x + m.d * y);
}
M mul(const M& s, const M& f) {  // apply f then s
  return M{s.a * f.a + s.b * f.c, s.a * f.b + s.b * f.d, s.c * f.a + s.d * f.c, s.c * f.b + s.d * f.d};
}
bool eq(const M& p, const M& q) { return p.a == q.a && p.b == q.b && p.c == q.c && p.d == q.d; }
int which(const M& m) {
  for (int t = 0; t < 8; ++t)
    if (eq(mat(t), m)) return t;
  return -1;
}
typedef bp::axis_transformation AT;
AT at(int t) { return AT((AT::ATR)t); }
// my direction code of a library direction
int dcode(bp::direction_2d d) { return d == bp::EAST ? E_ : d == bp::NORTH ? N_ : d == bp::WEST ? W_ : S_; }
bp::direction_2d dlib(int c) { return c == E_ ? bp::EAST : c == N_ ? bp::NORTH : c == W_ ? bp::WEST : bp::SOUTH; }
std::string num(ll v) { return std::to_string(v); }

void directions(mc::u64 i, mc::Case& c) {
  int a = int(i % 4), b = int(i / 4);
  bp::direction_2d A = dlib(a), B = dlib(b);
  c.input("directions " + num(a) + " " + num(b));
  c.step(40);
  c.nontrivial(i);
  auto R = [&](bool ok, const char* t) { c.require(ok, t, "direction " + num(a) + "," + num(b)); };
  R(dcode(A.backward()) == (a + 2) % 4, "backward");
  R(dcode(A.left()) == (a + 1) % 4, "left");
  R(dcode(A.right()) == (a + 3) % 4, "right");
  // turn() by the two 1d directions gives the two perpendicular directions
  R(A.turn(bp::LOW).backward() == A.turn(bp::HIGH), "turn");
  R(bp::orientation_2d(A.turn(bp::LOW)) != bp::orientation_2d(A), "turn_orientation");
  R(A.turn(bp::HIGH).turn(bp::LOW) == A && A.turn(bp::HIGH).turn(bp::HIGH) == A.backward(), "turn_turn");
  R(A.left().left() == A.backward() && A.left().right() == A, "left_left");
  bool pos = a == E_ || a == N_;
  R(A.is_positive() == pos && A.is_negative() == !pos && A.get_sign() == (pos ? 1 : -1), "sign");
  R((bp::orientation_2d(A) == bp::HORIZONTAL) == (a == E_ || a == W_), "orientation_of_direction");
  R((bp::direction_1d(A) == bp::HIGH) == pos, "direction_1d_of_direction");
  R(bp::orientation_2d(A).get_direction(bp::direction_1d(A)) == A, "get_direction");
  R(bp::orientation_2d(A).get_perpendicular() != bp::orientation_2d(A) && bp::orientation_2d(A).get_perpendicular().get_perpendicular() == bp::orientation_2d(A), "perpendicular");
  { bp::orientation_2d o(A); o.turn_90(); R(o == bp::orientation_2d(A).get_perpendicular(), "turn_90"); }
  bp::direction_1d d1(A), d2(A);
  d2.backward();
  R(d1 != d2 && d1.get_sign() == -d2.get_sign() && d1.get_sign() == A.get_sign(), "direction_1d_backward");
  R((A == B) == (a == b) && (A != B) == (a != b), "direction_eq");
  R(int(A < B) + int(B < A) + int(A == B) == 1 && (A <= B) == !(B < A) && (A > B) == (B < A) && (A >= B) == !(A < B), "direction_order");
  // 3d
  bp::direction_3d D3[6] = {bp::WEST, bp::EAST, bp::SOUTH, bp::NORTH, bp::DOWN, bp::UP};
  for (int k = 0; k < 6; ++k) {
    R(D3[k].backward() == D3[k ^ 1] && D3[k].backward().backward() == D3[k], "backward_3d");
    R(D3[k].is_positive() == bool(k & 1) && D3[k].get_sign() == (k & 1 ? 1 : -1), "sign_3d");
    R(bp::orientation_3d(D3[k]).to_int() == unsigned(k / 2), "orientation_3d");
    R(bp::orientation_3d(D3[k]).get_direction(bp::direction_1d(D3[k])) == D3[k], "get_direction_3d");
  }
  R(bp::direction_3d(A).backward() == bp::direction_3d(A.backward()), "3d_2d_backward");
  R(bp::orientation_3d(A) == bp::orientation_3d(bp::orientation_2d(A)), "3d_2d_orientation");
}

template <class T>
void act(int t, T x, T y, mc::Case& c, const char* what) {
  T wx, wy, gx = x, gy = y;
  app(mat(t), x, y, wx, wy);
  at(t).transform(gx, gy);
  c.step();
  if (gx != wx || gy != wy) c.fail(what, "transform " + num(t) + " of (" + num(ll(x)) + "," + num(ll(y)) + ")");
}

void single(mc::u64 i, mc::Case& c) {
  int t = int(i);
  c.input("transformation " + num(t));
  c.nontrivial(mc::mix(77, i));
  AT A = at(t);
  bp::direction_2d h, v;
  A.get_directions(h, v);
  c.step(30);
  c.require(dcode(h) == IMG[t][0] && dcode(v) == IMG[t][1], "get_directions", num(t));
  AT Bq;
  Bq.set_directions(h, v);
  c.require(Bq == A, "set_directions", num(t));
  AT::INDIVIDUAL_AXIS ax[2];
  A.populate_axis_array(ax);
  // PX NX PY NY
  const int ac[4] = {E_, W_, N_, S_};
  c.require(ac[ax[0]] == IMG[t][0] && ac[ax[1]] == IMG[t][1], "populate_axis_array", num(t));
  AT Cq;
  Cq.write_back_axis_array(ax);
  c.require(Cq == A, "write_back_axis_array", num(t));
  // inverse
  M m = mat(t), inv = M{m.a, m.c, m.b, m.d};
  c.require(A.inverse() == at(which(inv)), "inverse", num(t));
  { AT D = A; AT& r = D.invert(); c.require(D == A.inverse() && &r == &D, "invert", num(t)); }
  c.require(A + A.inverse() == AT() && A.inverse() + A == AT(), "inverse_composition", num(t));
  c.require(A == at(t) && !(A != at(t)), "eq", num(t));
  { AT D; D = (AT::ATR)t; AT F; F = A; c.require(D == A && F == A, "assign", num(t)); }
  // sorting transformations map their direction (orientation) to NORTH (VERTICAL)
  for (int d = 0; d < 4; ++d) {
    ll x = DX[d], y = DY[d];
    AT(dlib(d)).transform(x, y);
    c.require(x == 0 && y == 1, "from_direction", num(d));
    if (d < 2) {
      ll u = DX[d], w = DY[d];
      AT(bp::orientation_2d(dlib(d))).transform(u, w);
      c.require(u == 0 && w == 1, "from_orientation", num(d));
    }
  }
  // action on coordinates of every coordinate type
  for (int x = -3; x <= 3; ++x)
    for (int y = -3; y <= 3; ++y) {
      act<int>(t, x, y, c, "act_int");
      act<ll>(t, ll(x) << 40, ll(y) * 3, c, "act_ll");
      act<double>(t, x * 0.5, y * 1e30, c, "act_double");
      act<float>(t, float(x) * 0.25f, float(y), c, "act_float");
    }
  const int X[] = {-2147483647, 2147483647, 0, 1, -65537};
  for (int x : X)
    for (int y : X) act<int>(t, x, y, c, "act_int_extreme");
}

void pair(mc::u64 i, mc::Case& c) {
  int a = int(i % 8), b = int(i / 8);
  c.input("transformations " + num(a) + " then " + num(b));
  c.nontrivial(mc::mix(78, i));
  AT want = at(which(mul(mat(b), mat(a))));
  c.step(8);
  AT A = at(a), B = at(b);
  c.require(A + B == want, "operator+", num(a) + "," + num(b));
  c.require(A == at(a) && B == at(b), "operand_changed");
  AT::INDIVIDUAL_AXIS p[2], q[2];
  A.populate_axis_array(p);
  B.populate_axis_array(q);
  AT::combine_axis_arrays(p, q);
  AT C;
  C.write_back_axis_array(p);
  c.require(C == want, "combine_axis_arrays", num(a) + "," + num(b));
  AT::INDIVIDUAL_AXIS q2[2];
  B.populate_axis_array(q2);
  c.require(q[0] == q2[0] && q[1] == q2[1], "combine_axis_arrays_operand");
  AT& r = (A += B);
  c.require(A == want && &r == &A, "operator+=", num(a) + "," + num(b));
  c.require((at(a) == at(b)) == (a == b) && (at(a) != at(b)) == (a != b), "eq");
  c.require(int(at(a) < at(b)) + int(at(b) < at(a)) + int(at(a) == at(b)) == 1, "order");
  c.require((at(a) + at(b)).inverse() == at(b).inverse() + at(a).inverse(), "inverse_of_product", num(a) + "," + num(b));
  for (int k = 0; k < 8; ++k) c.require((at(a) + at(b)) + at(k) == at(a) + (at(b) + at(k)), "associative", num(a) + "," + num(b) + "," + num(k));
}

// rigid transformations: v -> A(v - p)
template <class T>
struct RT {
  M m;
  T px, py;
  void app2(T x, T y, T& ox, T& oy) const { app<T>(m, T(x - px), T(y - py), ox, oy); }
};
template <class T>
void rigid(mc::u64 i, mc::Case& c, const std::vector<T>& vals, bool swp) {
  mc::Digits d(i);
  unsigned n = unsigned(vals.size());
  int a = int(d.take(8)), b = int(d.take(8));
  T ax = vals[d.take(n)], ay = vals[d.take(n)], bx = vals[d.take(n)], by = vals[d.take(n)];
  c.input("A=" + num(a) + "@(" + num(ll(ax)) + "," + num(ll(ay)) + ") B=" + num(b) + "@(" + num(ll(bx)) + "," + num(ll(by)) + ")");
  typedef bp::point_data<T> P;
  typedef bp::transformation<T> TR;
  RT<T> ra{mat(a), ax, ay}, rb{mat(b), bx, by};
  TR A(at(a), P(ax, ay)), B(at(b), P(bx, by));
  { TR A2(at(a)); A2.set_translation(P(ax, ay)); c.require(A2 == A, "set_translation");
    TR A3((AT::ATR)a); c.require(A3 == TR(at(a)), "ctor_atr");
    TR A4(P(ax, ay)); A4.set_axis_transformation(at(a)); c.require(A4 == A && !(A4 != A), "set_axis_transformation");
    TR A5(A); c.require(A5 == A, "copy"); }
  P tr;
  A.get_translation(tr);
  c.require(tr == P(ax, ay) && A.get_axis_transformation() == at(a), "getters");
  { bp::direction_2d h, v; A.get_directions(h, v); c.require(dcode(h) == IMG[a][0] && dcode(v) == IMG[a][1], "get_directions_rigid"); }
  TR AB = A + B, AI = A.inverse(), AC = A;
  AC += B;
  c.require(AB == AC, "rigid_operator+=");
  c.require(A + AI == TR() && AI + A == TR(), "rigid_inverse_composition");
  TR BI = B;
  TR& bi = BI.invert();
  c.require(&bi == &BI, "rigid_invert_ref");
  // reference and destination point: reference goes to destination, linear part A
  TR RD(at(a), P(ax, ay), P(bx, by));
  TR assigned;
  assigned = A;
  c.require(assigned == A, "rigid_assign");
  c.step(10);
  static const int pts[][2] = {{0, 0}, {1, 0}, {0, 1}, {5, -3}, {-7, 2}};
  for (auto& q : pts) {
    T x = T(q[0]), y = T(q[1]), gx, gy, wx, wy, ux, uy;
    gx = x, gy = y, A.transform(gx, gy);
    ra.app2(x, y, wx, wy);
    c.require(gx == wx && gy == wy, "rigid_transform");
    rb.app2(wx, wy, ux, uy);
    gx = x, gy = y, AB.transform(gx, gy);
    c.require(gx == ux && gy == uy, "rigid_compose");
    gx = wx, gy = wy, AI.transform(gx, gy);
    c.require(gx == x && gy == y, "rigid_inverse");
    gx = x, gy = y, AI.transform(gx, gy), A.transform(gx, gy);
    c.require(gx == x && gy == y, "rigid_inverse2");
    gx = x, gy = y, B.transform(gx, gy), BI.transform(gx, gy);
    c.require(gx == x && gy == y, "rigid_invert");
    // A(v - ref) + dest
    app<T>(mat(a), T(x - ax), T(y - ay), wx, wy);
    gx = x, gy = y, RD.transform(gx, gy);
    c.require(gx == T(wx + bx) && gy == T(wy + by), "rigid_ref_dest");
    // as an object transform
    P p(x, y);
    bp::transform(p, A);
    ra.app2(x, y, wx, wy);
    c.require(p == P(wx, wy), "rigid_point");
    bp::segment_data<T> s(P(x, y), P(T(x + 2), T(y + 5)));
    bp::transform(s, A);
    ra.app2(T(x + 2), T(y + 5), ux, uy);
    c.require(s.low() == P(wx, wy) && s.high() == P(ux, uy), "rigid_segment");
    bp::rectangle_data<T> r(x, y, T(x + 2), T(y + 5));
    bp::transform(r, A);
    c.require(bp::equivalence(r, bp::rectangle_data<T>(wx, wy, ux, uy)), "rigid_rectangle");
    c.step(9);
  }
  c.state(mc::mix(79, i));
  c.nontrivial(mc::mix(79, i));
}

// scale factors
void scales(mc::u64 i, mc::Case& c) {
  static const double F[] = {1, 2, 0.5, 4, 0.25, 3, -1, -2};
  mc::Digits d(i);
  int t = int(d.take(8));
  double sx = F[d.take(8)], sy = F[d.take(8)], ux = F[d.take(8)], uy = F[d.take(8)];
  c.input("scale (" + std::to_string(sx) + "," + std::to_string(sy) + ") (" + std::to_string(ux) + "," + std::to_string(uy) + ") transform " + num(t));
  typedef bp::anisotropic_scale_factor<double> SF;
  SF s(sx, sy), u(ux, uy);
  c.step(12);
  c.require(SF().x() == 1 && SF().y() == 1, "scale_default");
  c.require(s.x() == sx && s.y() == sy && s.get(bp::HORIZONTAL) == sx && s.get(bp::VERTICAL) == sy, "scale_get");
  { SF w; w.x(sx); w.y(sy); SF q; q.set(bp::HORIZONTAL, sx); q.set(bp::VERTICAL, sy);
    c.require(w.x() == sx && w.y() == sy && q.x() == sx && q.y() == sy, "scale_set"); }
  SF su = s + u;
  c.require(su.x() == sx * ux && su.y() == sy * uy, "scale_product");
  { SF w(s); w += u; c.require(w.x() == su.x() && w.y() == su.y(), "scale_product_assign"); }
  SF inv(s);
  inv.invert();
  c.require(inv.x() == 1 / sx && inv.y() == 1 / sy, "scale_invert");
  SF st(s);
  st.transform(at(t));
  for (int x = -2; x <= 2; ++x)
    for (int y = -2; y <= 2; ++y) {
      double a = x * 4.0, b = y * 4.0, p, q;
      p = a, q = b, s.scale(p, q);
      c.require(p == a * sx && q == b * sy, "scale_double");
      double r = p, w = q;
      at(t).transform(r, w);  // transform(scale(v)) == scale'(transform(v))
      double e = a, f = b;
      at(t).transform(e, f);
      st.scale(e, f);
      c.require(r == e && w == f, "scale_transform");
      p = a, q = b, s.scale(p, q), inv.scale(p, q);
      if (sx != 3 && sy != 3) c.require(p == a && q == b, "scale_round_trip");
      // integers: rounded half up
      int m = x * 3 + 1, n = y * 5 - 1, g = m, h = n;
      s.scale(g, h);
      c.require(g == int(std::floor(m * sx + 0.5)) && h == int(std::floor(n * sy + 0.5)), "scale_int");
      bp::point_data<int> P(m, n);
      bp::scale(P, s);
      c.require(P == bp::point_data<int>(g, h), "scale_point");
      c.step(6);
    }
  c.nontrivial(mc::mix(80, i));
}

// action on polygons of every type: vertex cycle mapped vertex by vertex
template <class Poly, class P>
std::vector<std::pair<int, int> > pts(const Poly& p) {
  std::vector<std::pair<int, int> > v;
  for (auto it = bp::begin_points(p); it != bp::end_points(p); ++it) {
    P q = *it;
    v.push_back(std::make_pair(q.x(), q.y()));
  }
  return v;
}
typedef std::vector<std::pair<int, int> > VP;
// equal as cyclic sequences, in either direction
bool cyc(VP a, VP b) {
  if (a.size() != b.size() || a.empty()) return false;
  for (int r = 0; r < 2; ++r) {
    for (size_t k = 0; k < a.size(); ++k) {
      std::rotate(a.begin(), a.begin() + 1, a.end());
      if (a == b) return true;
    }
    std::reverse(a.begin(), a.end());
  }
  return false;
}
void objects(mc::u64 i, mc::Case& c) {
  mc::Digits d(i);
  int t = int(d.take(8));
  int ox = int(d.take(5)) - 2, oy = int(d.take(5)) - 2, kind = int(d.take(3)), useRigid = int(d.take(2));
  static const int SH[3][8][2] = {{{0, 0}, {4, 0}, {4, 1}, {1, 1}, {1, 3}, {0, 3}, {0, 0}, {0, 0}},
                                  {{0, 0}, {4, 0}, {6, 2}, {6, 4}, {3, 4}, {0, 1}, {0, 0}, {0, 0}},
                                  {{0, 0}, {5, 1}, {6, 4}, {2, 7}, {1, 3}, {-2, 2}, {0, 0}, {0, 0}}};
  VP v, w;
  bp::transformation<int> T(at(t), bp::point_data<int>(3, -5));
  for (int k = 0; k < 6; ++k) {
    int x = SH[kind][k][0] * 10 + ox, y = SH[kind][k][1] * 10 + oy, p, q;
    v.push_back(std::make_pair(x, y));
    app<int>(mat(t), useRigid ? x - 3 : x, useRigid ? y + 5 : y, p, q);
    w.push_back(std::make_pair(p, q));
  }
  c.input("shape " + num(kind) + " transform " + num(t) + " offset " + num(ox) + "," + num(oy) + (useRigid ? " rigid" : ""));
  typedef bp::point_data<int> P;
  std::vector<P> in;
  for (auto& q : v) in.push_back(P(q.first, q.second));
  auto run = [&](auto poly, const char* what) {
    bp::set_points(poly, in.begin(), in.end());
    c.require(cyc(pts<decltype(poly), P>(poly), v), what, "set_points");
    if (useRigid) bp::transform(poly, T); else bp::transform(poly, at(t));
    c.require(cyc(pts<decltype(poly), P>(poly), w), what, "transform");
    c.step(2);
  };
  run(bp::polygon_data<int>(), "polygon");
  run(bp::polygon_with_holes_data<int>(), "polygon_with_holes");
  if (kind < 2) {
    run(bp::polygon_45_data<int>(), "polygon_45");
    run(bp::polygon_45_with_holes_data<int>(), "polygon_45_with_holes");
  }
  if (kind < 1) {
    run(bp::polygon_90_data<int>(), "polygon_90");
    run(bp::polygon_90_with_holes_data<int>(), "polygon_90_with_holes");
  }
  c.nontrivial(mc::mix(81, i));
}
}  // namespace

MC_REGISTER(e) {
  e.add("directions", 16, directions);
  e.add("single", 8, single);
  e.add("pairs", 64, pair);
  std::vector<int> vi = {-2, 0, 1, 3};
  std::vector<int> big = {-100000007, 1, 500000003};
  std::vector<ll> vl = {-(ll(1) << 40), 7, ll(1) << 41};
  if (e.thorough()) vi = {-3, -2, -1, 0, 1, 2, 3}, big = {-500000003, -1, 0, 7, 500000003};
  e.add("rigid/int", 64 * mc::ipow(vi.size(), 4), [=](mc::u64 i, mc::Case& c) { rigid<int>(i, c, vi, false); });
  e.add("rigid/int-big", 64 * mc::ipow(big.size(), 4), [=](mc::u64 i, mc::Case& c) { rigid<int>(i, c, big, false); });
  e.add("rigid/longlong", 64 * mc::ipow(vl.size(), 4), [=](mc::u64 i, mc::Case& c) { rigid<ll>(i, c, vl, false); });
  e.add("scales", 8 * 8 * 8 * 8 * 8, scales);
  e.add("objects", 8 * 5 * 5 * 3 * 2, objects);
}
