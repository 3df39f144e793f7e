// C09: resizing of 45-degree regions against the offset definition.
#include <list>
#include "arr45.hpp"
#include "ras4.hpp"
using namespace arr;
using namespace boost::polygon::operators;
namespace {
const i64 LO = -2147483648LL, HI = 2147483647LL;
const int DX[8] = {1, 1, 0, -1, -1, -1, 0, 1}, DY[8] = {0, 1, 1, 1, 0, -1, -1, -1};
enum { CLO, OVE, UND, SQ2, SQH };
const bp::RoundingOption RO[] = {bp::CLOSEST, bp::OVERSIZE, bp::UNDERSIZE, bp::SQRT2, bp::SQRT1OVER2};
enum { INT, ORT, UNF };
const bp::CornerOption CO[] = {bp::INTERSECTION, bp::ORTHOGONAL, bp::UNFILLED};
const char* RN[] = {"CLOSEST", "OVERSIZE", "UNDERSIZE", "SQRT2", "SQRT1OVER2"};
const char* CN[] = {"INTERSECTION", "ORTHOGONAL", "UNFILLED"};

i64 isq(i64 v) {
  i64 r = i64(std::sqrt((long double)v));
  while (r * r > v) --r;
  while ((r + 1) * (r + 1) <= v) ++r;
  return r;
}
// integer displacement per axis of a 45-degree edge
i64 diagShift(i64 d, int ro) {
  if (ro == SQ2 || ro == SQH) return d;
  i64 fl = isq(d * d / 2);  // floor(d/sqrt2); never an integer for d>0
  if (ro == UND) return fl;
  if (ro == OVE) return fl + 1;
  return (2 * fl + 1) * (2 * fl + 1) * 2 <= 4 * d * d ? fl + 1 : fl;
}
int octant(P a, P b) {
  i64 dx = b.x - a.x, dy = b.y - a.y;
  int sx = (dx > 0) - (dx < 0), sy = (dy > 0) - (dy < 0);
  for (int k = 0; k < 8; ++k)
    if (DX[k] == sx && DY[k] == sy) return k;
  return -1;
}
// intersection of p + t*dir(a) and q + s*dir(b)
P meet(P p, int a, P q, int b) {
  i64 det = i64(DX[a]) * DY[b] - i64(DY[a]) * DX[b];
  i64 num = (q.x - p.x) * DY[b] - (q.y - p.y) * DX[b];  // t*det
  return P{p.x + num * DX[a] / det, p.y + num * DY[a] / det};
}
Loop ccw(Loop l) {
  if (area2(l) < 0) std::reverse(l.begin(), l.end());
  return l;
}
// the pieces added to (grow) or taken from (shrink) a polygon
std::vector<Loop> pieces(Loop l, i64 d, int ro, int co, bool grow) {
  std::vector<Loop> r;
  l = ccw(l);
  size_t n = l.size();
  i64 u = diagShift(d, ro);
  for (size_t i = 0; i < n; ++i) {
    P a = l[i], b = l[(i + 1) % n];
    int o = octant(a, b), q = (o + 2) % 8;
    Loop s;
    if (o % 2 == 0 || ro != SQH || co == UNF) {
      i64 t = o % 2 == 0 ? d : ro == SQH ? (d + 1) / 2 : u;
      s = {P{a.x + DX[q] * t, a.y + DY[q] * t}, P{b.x + DX[q] * t, b.y + DY[q] * t}, P{b.x - DX[q] * t, b.y - DY[q] * t}, P{a.x - DX[q] * t, a.y - DY[q] * t}};
    } else
      s = {P{a.x - DX[o] * d, a.y}, P{a.x, a.y - DY[o] * d}, P{b.x + DX[o] * d, b.y}, P{b.x, b.y + DY[o] * d}};
    r.push_back(ccw(s));
    if (co == UNF) continue;
    P c = l[(i + 2) % n];
    int o2 = octant(b, c), turn = (o2 - o + 8) % 8;
    if (!(grow ? turn > 0 && turn < 4 : turn > 4)) continue;
    if (!grow) turn = 8 - turn;
    int n1 = grow ? (o + 6) % 8 : (o + 2) % 8, n2 = grow ? (o2 + 6) % 8 : (o2 + 2) % 8;
    bool dg1 = o % 2, dg2 = o2 % 2;
    P e1{b.x + DX[n1] * (dg1 ? u : d), b.y + DY[n1] * (dg1 ? u : d)}, e2{b.x + DX[n2] * (dg2 ? u : d), b.y + DY[n2] * (dg2 ? u : d)};
    if (ro == SQH) {
      if (dg1 && dg2) continue;
      if (co == ORT) {
        if (!dg1 && !dg2) r.push_back(Loop{P{b.x - d, b.y - d}, P{b.x + d, b.y - d}, P{b.x + d, b.y + d}, P{b.x - d, b.y + d}});
        else {
          int na = dg1 ? n2 : n1, t = (na + 2) % 8;
          P f{b.x + DX[na] * d, b.y + DY[na] * d};
          r.push_back(ccw(Loop{P{b.x + DX[t] * d, b.y + DY[t] * d}, P{b.x - DX[t] * d, b.y - DY[t] * d}, P{f.x - DX[t] * d, f.y - DY[t] * d}, P{f.x + DX[t] * d, f.y + DY[t] * d}}));
        }
        continue;
      }
      // points of the offset line at distance d along an axis, away from the corner
      auto far = [&](int nn, int back) {
        P p{b.x + DX[nn] * d, b.y}, q{b.x, b.y + DY[nn] * d};
        return (p.x - b.x) * DX[back] + (p.y - b.y) * DY[back] > 0 ? p : q;
      };
      if (dg1) e1 = far(n1, (o + 4) % 8);
      if (dg2) e2 = far(n2, o2);
    } else if (co == ORT && turn == 3) {
      i64 x0 = std::min(e1.x, e2.x), x1 = std::max(e1.x, e2.x), y0 = std::min(e1.y, e2.y), y1 = std::max(e1.y, e2.y);
      r.push_back(Loop{P{x0, y0}, P{x1, y0}, P{x1, y1}, P{x0, y1}});
      continue;
    }
    r.push_back(ccw(Loop{e1, b, e2, meet(e1, o, e2, o2)}));
  }
  return r;
}
struct Box {
  i64 x0 = INT64_MAX, y0 = INT64_MAX, x1 = INT64_MIN, y1 = INT64_MIN;
  void add(const Loop& l) {
    for (auto& p : l) x0 = std::min(x0, p.x), y0 = std::min(y0, p.y), x1 = std::max(x1, p.x), y1 = std::max(y1, p.y);
  }
};
struct Seg {
  P a, b;
};
// unit squares around crossings of 45-degree edges between grid points
void blur(const std::vector<Loop>& ls, std::vector<char>& skip, const Ras4& r) {
  std::vector<Seg> up, dn;
  for (auto& l : ls)
    for (size_t i = 0; i < l.size(); ++i) {
      P a = l[i], b = l[(i + 1) % l.size()];
      if (a.x > b.x) std::swap(a, b);
      if (a.x == b.x || a.y == b.y) continue;
      (a.y < b.y ? up : dn).push_back(Seg{a, b});
    }
  for (auto& s : up)
    for (auto& t : dn) {
      i64 c1 = s.a.x - s.a.y, c2 = t.a.x + t.a.y;  // x = (c1+c2)/2, y = (c2-c1)/2
      if (((c1 + c2) & 1) == 0) continue;
      if (c1 + c2 < 2 * std::max(s.a.x, t.a.x) || c1 + c2 > 2 * std::min(s.b.x, t.b.x)) continue;
      i64 x = (c1 + c2 - 1) / 2, y = (c2 - c1 - 1) / 2;
      if (c1 + c2 < 0) x = (c1 + c2 - 1) / 2;
      x = (c1 + c2 - 1) >> 1;
      y = (c2 - c1 - 1) >> 1;
      for (i64 X = x - 1; X <= x + 1; ++X)
        for (i64 Y = y - 1; Y <= y + 1; ++Y) {
          if (X < r.x0 || Y < r.y0 || X >= r.x0 + r.w || Y >= r.y0 + r.h) continue;
          for (int sub = 0; sub < 3; ++sub)
            for (int k = 0; k < 2; ++k) skip[size_t((Y - r.y0) * 3 + sub) * (2 * r.w) + 2 * (X - r.x0) + k] = 1;
        }
    }
}
struct PolyD {
  Loop shell;
  std::vector<Loop> holes;
};
// the definition: union over polygons of resized shell minus oppositely resized holes
struct Want {
  Ras4 r;
  std::vector<char> skip;
};
Want model(const std::vector<PolyD>& in, i64 d, int ro, int co, bool exact) {
  bool grow = d > 0;
  i64 a = grow ? d : -d;
  std::vector<Loop> all;
  Box bx;
  std::vector<std::vector<std::vector<Loop>>> pc;
  for (auto& p : in) {
    std::vector<std::vector<Loop>> q;
    q.push_back(pieces(p.shell, a, ro, co, grow));
    for (auto& h : p.holes) q.push_back(pieces(h, a, ro, co, !grow));
    for (size_t i = 0; i < q.size(); ++i) {
      for (auto& l : q[i]) bx.add(l), all.push_back(l);
      const Loop& s = i ? p.holes[i - 1] : p.shell;
      bx.add(s);
      all.push_back(s);
    }
    pc.push_back(q);
  }
  if (in.empty()) bx.add(Loop{P{0, 0}});
  Ras4 R(bx.x0 - 2, bx.y0 - 2, bx.x1 + 2, bx.y1 + 2);
  auto one = [&](const Loop& l, const std::vector<Loop>& ps, bool g) {
    Ras4 t(R.x0, R.y0, R.x0 + R.w, R.y0 + R.h), u = t;
    t.any(l);
    for (auto& p : ps) u.any(p);
    for (size_t i = 0; i < t.v.size(); ++i) t.v[i] = g ? (t.v[i] || u.v[i]) : (t.v[i] && !u.v[i]);
    return t;
  };
  for (size_t k = 0; k < in.size(); ++k) {
    Ras4 t = one(in[k].shell, pc[k][0], grow);
    for (size_t j = 0; j < in[k].holes.size(); ++j) {
      Ras4 h = one(in[k].holes[j], pc[k][j + 1], !grow);
      for (size_t i = 0; i < t.v.size(); ++i)
        if (h.v[i]) t.v[i] = 0;
    }
    for (size_t i = 0; i < t.v.size(); ++i) R.v[i] |= t.v[i];
  }
  Want w{R, std::vector<char>(R.v.size())};
  if (!exact) blur(all, w.skip, R);
  return w;
}
void compare(const Want& w, const PS5& s, mc::Case& c, const std::string& what) {
  std::vector<Poly> o = read5(s);
  angles(o, c, what);
  Ras4 g(w.r.x0, w.r.y0, w.r.x0 + w.r.w, w.r.y0 + w.r.h);
  for (auto& p : o) {
    Box b;
    b.add(p.shell);
    if (b.x0 < g.x0 || b.y0 < g.y0 || b.x1 > g.x0 + g.w || b.y1 > g.y0 + g.h) c.fail("outside", what + ": result leaves the window " + show(o));
    if (area2(p.shell) <= 0) c.fail("winding", what + ": shell not counterclockwise " + show(o));
    g.add(p.shell);
    for (auto& h : p.holes) g.add(ccw(h), -1);
  }
  for (size_t i = 0; i < g.v.size(); ++i)
    if (!w.skip[i] && g.v[i] != w.r.v[i])
      c.fail("region", what + ": " + w.r.where(i) + " is covered " + std::to_string(g.v[i]) + " times, wanted " + std::to_string(w.r.v[i]) + " in " + show(o));
}
std::string sig(i64 d, int ro, int co) { return "resize " + std::to_string(d) + " " + RN[ro] + " " + CN[co]; }
bool convex(const Loop& l) {
  for (size_t i = 0; i < l.size(); ++i)
    if (cross(l[i], l[(i + 1) % l.size()], l[(i + 2) % l.size()]) < 0) return false;
  return true;
}
// second definition for convex polygons: every half plane moved outwards
void halfplanes(Want w, Loop l, i64 d, int ro, mc::Case& c) {
  l = ccw(l);
  for (size_t i = 0; i < w.r.v.size(); ++i) {
    size_t row = i / (2 * w.r.w), k = i % (2 * w.r.w);
    i64 x = 6 * w.r.x0 + Ras4::sx(int(row % 3), int(k)), y = 6 * (w.r.y0 + i64(row / 3)) + 2 * (row % 3) + 1;
    bool in = true;
    for (size_t j = 0; j < l.size(); ++j) {
      P a = l[j], b = l[(j + 1) % l.size()];
      int o = octant(a, b);
      i64 s = o % 2 ? (ro == SQH ? d : 2 * diagShift(d, ro)) : d;
      i64 v = DX[o] * (y - 6 * a.y) - DY[o] * (x - 6 * a.x);  // >= 0 inside, in sixths
      if (v < -6 * s) in = false;
    }
    if (int(in) != w.r.v[i]) c.fail("model", "the two definitions disagree for " + show(l) + " " + sig(d, ro, INT));
  }
}
Loop variant(const Loop& l, unsigned v) {
  Loop r = l;
  std::rotate(r.begin(), r.begin() + v / 4 % r.size(), r.end());
  if (v & 1) std::reverse(r.begin(), r.end());
  if (v & 2) r.push_back(r.front());
  return r;
}
struct Opt {
  int d0, d1;
  std::vector<int> ros, cos;
  u64 size() const { return u64(d1 - d0 + 1) * ros.size() * cos.size(); }
  void take(u64& i, i64& d, int& ro, int& co) const {
    ro = ros[i % ros.size()];
    i /= ros.size();
    co = cos[i % cos.size()];
    i /= cos.size();
    d = d0 + i64(i % (d1 - d0 + 1));
    i /= d1 - d0 + 1;
  }
};
const std::vector<int> ALLR = {CLO, OVE, UND, SQ2, SQH}, ALLC = {INT, ORT, UNF};
bool exactFor(int k, i64 d, int ro, int co) { return k % 2 == 0 && (ro != SQH || d % 2 == 0 || co == UNF); }

std::vector<PolyD> toD(const std::vector<Poly>& v) {
  std::vector<PolyD> r;
  for (auto& p : v) r.push_back(PolyD{p.shell, p.holes});
  return r;
}
// one simple polygon
void singles(mc::Engine& e, const std::string& nm, int n, int m, int k, int mul, i64 ox, i64 oy, Opt op, bool subdivide = false) {
  auto ps = std::make_shared<std::vector<Loop>>(simplePolys(n, m, k, true));
  e.add(nm, ps->size() * op.size(), [=](u64 i, mc::Case& c) {
    u64 id = i;
    i64 d;
    int ro, co;
    op.take(i, d, ro, co);
    if (d == 0) return;
    Loop l = (*ps)[i], in;
    for (auto& p : l) p = P{p.x * mul + ox, p.y * mul + oy};
    in = l;
    if (subdivide) {
      in.clear();
      for (size_t j = 0; j < l.size(); ++j) {
        P a = l[j], b = l[(j + 1) % l.size()];
        in.push_back(a);
        if (mul % 2 == 0) in.push_back(P{a.x + (b.x - a.x) / 2, a.y + (b.y - a.y) / 2});
      }
    }
    in = variant(in, unsigned(mc::mix(id, 5) & 63));
    c.input(show(in) + " " + sig(d, ro, co));
    bool ex = exactFor(mul, d, ro, co);
    Want w = model({PolyD{l, {}}}, d, ro, co, ex);
    if (d > 0 && co == INT && 2 * diagShift(d, ro) >= d && convex(ccw(l)) && ex) halfplanes(w, l, d, ro, c);
    std::vector<P> pv(in.begin(), in.end());
    PD5 poly = mkpoly<PD5>(in);
    {
      PS5 s;
      s.insert_with_resize(poly, int(d), RO[ro], CO[co]);
      compare(w, s, c, "insert_with_resize");
    }
    {
      PS5 s;
      s.insert(poly);
      if (id & 1) s.resize(int(d), RO[ro], CO[co]);
      else bp::resize(s, int(d), RO[ro], CO[co]);
      compare(w, s, c, "resize");
    }
    if (ro == CLO && co == INT) {
      PS5 s, t, u, v;
      s.insert(poly);
      t = s + int(d);
      compare(w, t, c, "operator+");
      u = s - int(-d);
      compare(w, u, c, "operator-");
      v = s;
      if (d > 0) bp::bloat(v, (unsigned long long)d);
      else bp::shrink(v, (unsigned long long)-d);
      compare(w, v, c, "bloat/shrink");
      v = s;
      if (d > 0) v += int(d);
      else v -= int(-d);
      compare(w, v, c, "operator+=");
      std::vector<PD5> vec(1, poly);
      bp::resize(vec, int(d));
      PS5 x;
      x.insert(vec.begin(), vec.end());
      compare(w, x, c, "resize(vector)");
    }
    // rectilinear input: the Manhattan resize
    bool rect = true;
    for (size_t j = 0; j < l.size(); ++j) rect &= octant(l[j], l[(j + 1) % l.size()]) % 2 == 0;
    if (rect && co != UNF) {
      bp::polygon_90_set_data<int> q;
      bp::polygon_90_data<int> pq;
      std::vector<Pt> pts;
      for (auto& z : l) pts.push_back(Pt(int(z.x), int(z.y)));
      bp::set_points(pq, pts.begin(), pts.end());
      q.insert(pq);
      if (d > 0) q.bloat(int(d), int(d), int(d), int(d));
      else q.shrink(int(-d), int(-d), int(-d), int(-d));
      PS5 a(q), b;
      b.insert_with_resize(poly, int(d), RO[ro], CO[co]);
      if (!(a == b)) c.fail("manhattan", "differs from the Manhattan resize");
    }
    c.step(3);
    c.nontrivial(id);
  });
}
// a frame with every set of octant faces as holes, given as polygons with holes
void holed(mc::Engine& e, const std::string& nm, CP5 inner, int mul, Opt op, int margin) {
  SP sp = std::make_shared<Space>(inner->A, Emb(1));
  u64 nr = u64(1) << inner->A.face.size();
  e.add(nm, nr * op.size() * 2, [=](u64 i, mc::Case& c) {
    u64 id = i;
    i64 d;
    int ro, co;
    op.take(i, d, ro, co);
    if (d == 0) return;
    bool oct = i & 1;
    u64 b = i >> 1;
    // arrangement coordinates are doubled
    int W = inner->A.n * 2 + 2 * margin, H = inner->A.m * 2 + 2 * margin;
    Loop sh = {P{0, 0}, P{W, 0}, P{W, H}, P{0, H}};
    if (oct) sh = {P{1, 0}, P{W - 1, 0}, P{W, 1}, P{W, H - 1}, P{W - 1, H}, P{1, H}, P{0, H - 1}, P{0, 1}};
    for (auto& p : sh) p = P{p.x * mul, p.y * mul};
    PS5 s;
    s.insert(mkpoly<PD5>(sh));
    for (size_t f = 0; f < inner->A.face.size(); ++f)
      if (b >> f & 1) {
        Loop l;
        for (auto& q : inner->A.face[f]) l.push_back(P{(q.x + margin) * mul, (q.y + margin) * mul});
        s.insert(mkpoly<PD5>(ccw(l)), true);
      }
    c.input(show(sh) + " minus faces " + std::to_string(b) + " " + sig(d, ro, co));
    std::vector<Poly> in = read5(s);
    Want w = model(toD(in), d, ro, co, exactFor(mul, d, ro, co));
    if (in.size() == 1) {
      PS5 t;
      std::vector<PH5> v;
      s.get(v);
      t.insert_with_resize(v[0], int(d), RO[ro], CO[co]);
      compare(w, t, c, "insert_with_resize");
    }
    s.resize(int(d), RO[ro], CO[co]);
    compare(w, s, c, "resize");
    c.step(2);
    c.nontrivial(id);
  });
}
// any region of a lattice
void regions(mc::Engine& e, const std::string& nm, CP5 x, int mul, Opt op) {
  SP sp = std::make_shared<Space>(x->A, Emb(1));
  u64 nr = u64(1) << x->A.face.size();
  e.add(nm, nr * op.size(), [=](u64 i, mc::Case& c) {
    u64 id = i;
    i64 d;
    int ro, co;
    op.take(i, d, ro, co);
    if (d == 0) return;
    PS5 s;
    for (size_t f = 0; f < x->A.face.size(); ++f)
      if (i >> f & 1) {
        Loop l;
        for (auto& q : x->A.face[f]) l.push_back(P{q.x * mul, q.y * mul});
        s.insert(mkpoly<PD5>(ccw(l)));
      }
    c.input("faces " + std::to_string(i) + " x" + std::to_string(mul) + " " + sig(d, ro, co));
    std::vector<Poly> in = read5(s);
    Want w = model(toD(in), d, ro, co, exactFor(mul, d, ro, co));
    PS5 t(s);
    t.resize(int(d), RO[ro], CO[co]);
    compare(w, t, c, "resize");
    if (d > 0 && ro == CLO && co == INT) {
      // grow_and: what at least two grown polygons cover
      std::vector<PD5> v;
      s.get(v);
      std::vector<Poly> hf = readD(v);
      Want g = model(toD(hf), d, ro, co, true), n = g;
      std::fill(n.r.v.begin(), n.r.v.end(), 0);
      for (auto& p : hf) {
        Want o = model({PolyD{p.shell, {}}}, d, ro, co, true);
        for (size_t k = 0; k < o.r.v.size(); ++k)
          if (o.r.v[k]) {
            i64 row = i64(k) / (2 * o.r.w) + 3 * (o.r.y0 - n.r.y0), col = i64(k) % (2 * o.r.w) + 2 * (o.r.x0 - n.r.x0);
            n.r.at(int(row), int(col))++;
          }
      }
      for (auto& q : n.r.v) q = q > 1;
      PS5 u(s);
      bp::grow_and(u, (unsigned long long)d);
      compare(n, u, c, "grow_and");
    }
    c.step(1);
    c.nontrivial(id);
  });
}
// other coordinate types
template <class T>
void typed(mc::Engine& e, const std::string& nm, i64 off, Opt op) {
  auto ps = std::make_shared<std::vector<Loop>>(simplePolys(2, 2, 8, true));
  e.add(nm, ps->size() * op.size(), [=](u64 i, mc::Case& c) {
    u64 id = i;
    i64 d;
    int ro, co;
    op.take(i, d, ro, co);
    if (d == 0) return;
    Loop l = (*ps)[i];
    for (auto& p : l) p = P{p.x * 2, p.y * 2};
    c.input(show(l) + " + " + std::to_string(off) + " " + sig(d, ro, co));
    std::vector<bp::point_data<T>> v;
    for (auto& p : l) v.push_back(bp::point_data<T>(T(p.x + off), T(p.y - off)));
    bp::polygon_45_data<T> poly(v.begin(), v.end());
    bp::polygon_45_set_data<T> s;
    s.insert(poly);
    s.resize(T(d), RO[ro], CO[co]);
    std::vector<bp::polygon_45_with_holes_data<T>> o;
    s.get(o);
    PS5 back;
    for (auto& p : o) {
      auto conv = [&](auto b, auto z, bool hole) {
        Loop k;
        for (; b != z; ++b) k.push_back(P{i64((*b).x()) - off, i64((*b).y()) + off});
        for (auto& q : k)
          if (q.x < -100 || q.x > 100 || q.y < -100 || q.y > 100) c.fail("outside", "result leaves the window");
        back.insert(mkpoly<PD5>(ccw(k)), hole);
      };
      conv(p.begin(), p.end(), false);
      for (auto h = p.begin_holes(); h != p.end_holes(); ++h) conv(h->begin(), h->end(), true);
    }
    compare(model({PolyD{l, {}}}, d, ro, co, exactFor(2, d, ro, co)), back, c, "resize");
    c.nontrivial(id);
  });
}
}  // namespace
MC_REGISTER(e) {
  auto mk = [](int n, int m, int k, int q = 1) { return std::make_shared<Ctx5>(n, m, k, q); };
  Opt all{-3, 3, ALLR, ALLC};
  singles(e, "single-3x3", 2, 2, 8, 2, 0, 0, all);
  singles(e, "single-3x3-odd", 2, 2, 8, 1, 0, 0, all);
  singles(e, "single-3x3-x6", 2, 2, 8, 6, -5, 3, Opt{-7, 7, ALLR, ALLC});
  singles(e, "single-4x4", 3, 3, 5, 2, 0, 0, all);
  singles(e, "single-4x4-x5", 3, 3, 5, 5, 0, 0, Opt{-4, 4, ALLR, ALLC});
  singles(e, "single-hi", 2, 2, 6, 2, HI - 16, HI - 16, all);
  singles(e, "single-lo", 2, 2, 6, 2, LO + 12, LO + 12, all);
  singles(e, "redundant", 2, 2, 8, 2, 0, 0, Opt{-2, 2, ALLR, ALLC}, true);
  typed<long long>(e, "single-int64", 1LL << 40, all);
  CP5 s3 = mk(2, 2, 3), s21 = mk(2, 1, 3);
  holed(e, "holed-2x1", s21, 2, Opt{-2, 2, ALLR, ALLC}, 3);
  holed(e, "holed-2x1-far", s21, 2, Opt{-2, 2, ALLR, ALLC}, 7);
  holed(e, "holed-2x2", s3, 2, Opt{1, 1, {CLO}, ALLC}, 3);
  holed(e, "holed-2x2-shrink", s3, 2, Opt{-1, -1, {CLO}, ALLC}, 3);
  regions(e, "regions-2x1", s21, 2, all);
  regions(e, "regions-2x2", s3, 1, Opt{-1, 1, {CLO}, {INT, ORT}});
  if (e.thorough()) {
    singles(e, "single-4x4-6", 3, 3, 6, 2, 0, 0, all);
    singles(e, "single-4x4-6-x7", 3, 3, 6, 7, -9, 4, Opt{-5, 5, ALLR, ALLC});
    singles(e, "single-3x3-x10", 2, 2, 8, 10, 1, 0, Opt{-12, 12, ALLR, ALLC});
    singles(e, "single-5x5", 4, 4, 4, 2, 0, 0, all);
    holed(e, "holed-2x2-2", s3, 2, Opt{-2, 2, {CLO}, {INT, ORT}}, 4);
    regions(e, "regions-2x2-even", s3, 2, Opt{-2, 2, {CLO, SQH}, {INT, ORT}});
    regions(e, "regions-3x1", mk(3, 1, 3), 2, Opt{-2, 2, {CLO, OVE}, {INT}});
  }
}
