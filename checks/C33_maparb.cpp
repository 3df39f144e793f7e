// C33 (arbitrary-angle sets): transforming and scaling yields the image of the
// region and a usable set: all pairs of lattice polygons and all polygons with a
// hole, every map; where scaling rounds, the region bounded by the rounded
// vertices, unless the engine itself cannot represent it (unit snapping).
#include "arrlib.hpp"
using namespace arr;
using namespace boost::polygon::operators;
namespace {
typedef bp::axis_transformation AT;
typedef std::shared_ptr<Space> SP;
struct Ctx {
  Arr A;
  std::vector<Loop> polys;
  std::vector<Mask> masks;
  Ctx(int n, int m, int k) : A(n, m, false), polys(simplePolys(n, m, k)) {
    for (auto& l : polys) masks.push_back(A.mask(l));
  }
};
typedef std::shared_ptr<Ctx> CP;
struct Lin {
  i64 a, b, c, d, x, y;
  P operator()(P p) const { return P{a * p.x + b * p.y + x, c * p.x + d * p.y + y}; }
};
Lin atr(int k) {
  i64 sx = k & 1 ? -1 : 1, sy = k & 2 ? -1 : 1;
  return k & 4 ? Lin{0, sy, sx, 0, 0, 0} : Lin{sx, 0, 0, sy, 0, 0};
}
Emb after(const Emb& e, const Lin& m) {
  P o = m(e.lin(0, 0, 1)), u = m(e.lin(1, 0, 1)), v = m(e.lin(0, 1, 1));
  i64 ux = u.x - o.x, uy = u.y - o.y, vx = v.x - o.x, vy = v.y - o.y, k = std::abs(ux) + std::abs(uy);
  Emb r(e.k * k, o.x, o.y, ux == 0);
  r.nx = r.swap ? vx < 0 : ux < 0;
  r.ny = r.swap ? uy < 0 : vy < 0;
  return r;
}
struct Map {
  std::string name;
  Lin l;
  int down;  // 0: exact map, else scale_down factor
  std::function<void(PS&)> member, free;
  std::function<void(std::vector<PD>&)> polys;
  std::function<void(std::vector<PH>&)> holes;
};
template <class M, class F>
void put(std::vector<Map>& v, const std::string& n, Lin l, M m, F f) {
  Map e;
  e.name = n;
  e.l = l;
  e.down = 0;
  e.member = m;
  e.free = f;
  e.polys = f;
  e.holes = f;
  v.push_back(e);
}
const std::vector<Map>& maps() {
  static std::vector<Map> v;
  if (!v.empty()) return v;
  for (int k = 0; k < 8; ++k) {
    AT t((AT::ATR(k)));
    put(v, "transform(atr " + std::to_string(k) + ")", atr(k), [=](PS& s) { s.transform(t); }, [=](auto& s) { bp::transform(s, t); });
    bp::transformation<int> tr(t, bp::point_data<int>(1, 2), bp::point_data<int>(5, -3));
    Lin l = atr(k);
    P q = l(P{1, 2});
    l.x = 5 - q.x;
    l.y = -3 - q.y;
    put(v, "transform(transformation " + std::to_string(k) + ")", l, [=](PS& s) { s.transform(tr); }, [=](auto& s) { bp::transform(s, tr); });
  }
  for (int f = 1; f <= 3; ++f) put(v, "scale_up(" + std::to_string(f) + ")", Lin{f, 0, 0, f, 0, 0}, [=](PS& s) { s.scale_up(f); }, [=](auto& s) { bp::scale_up(s, f); });
  return v;
}
const bp::rectangle_data<int> K(-3, -2, 9, 8);
void follow(const Space& sp, PS& s, const Mask& m, mc::Case& c, const std::string& nm, unsigned rot, int n) {
  PS F;
  for (size_t f = 0; f < sp.A.face.size(); ++f)
    if (m[f]) {
      Loop l;
      for (auto& q : sp.A.face[f]) l.push_back(sp.e.lin(q.x * sp.e.k, q.y * sp.e.k, 1));
      F.insert(poly(l));
    }
  for (int q = 0; q < n; ++q) {
    c.step();
    switch ((q + rot) % 5) {
      case 0:
        region(sp, read(s), m, 0, c, nm);
        break;
      case 1:
        if (bp::empty(s) != m.none()) c.fail("empty", nm + ": empty");
        break;
      case 2: {
        double ar = bp::area(s);
        if (ar != double(sp.area2(m)) / 2) c.fail("area", nm + ": area");
        break;
      }
      case 3: {
        PS a;
        a = s ^ F;
        if (!bp::empty(a)) c.fail("wrong_region", nm + ": XOR with its region is not empty");
        a = s & F;
        region(sp, read(a), m, 0, c, nm + " AND its region");
        break;
      }
      case 4: {
        PS d(s);
        d.insert(F);
        region(sp, read(d), m, 0, c, nm + " insert its region");
      }
    }
  }
}
// every ordered pair of polygons, inserted / OR-ed / XOR-ed / hole
void pairs(mc::Engine& e, const std::string& nm, CP x, const Emb& em, int nf) {
  SP sp = std::make_shared<Space>(x->A, em);
  auto tg = std::make_shared<std::vector<SP>>();
  for (auto& t : maps()) tg->push_back(std::make_shared<Space>(x->A, after(em, t.l)));
  const u64 np = x->polys.size(), nt = maps().size();
  e.add("exact/" + nm, np * np * nt, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    size_t p = d.take(np), q = d.take(np), t = d.take(nt);
    if (nf < 5 && p > q) return;
    int form = int((p + q + t) % 4);
    Loop a = sp->real(x->polys[p]), b = sp->real(x->polys[q]);
    c.input(show(a) + " ; " + show(b) + " form " + std::to_string(form) + " " + maps()[t].name);
    PS s;
    Mask m;
    s.insert(poly(a));
    if (form == 2) {
      PS z;
      z.insert(poly(b));
      s ^= z;
      m = x->masks[p] ^ x->masks[q];
    } else if (form == 3 && (x->masks[q] & ~x->masks[p]).none()) {
      s.insert(poly(b), true);
      m = x->masks[p] & ~x->masks[q];
    } else {
      s.insert(poly(b));
      m = x->masks[p] | x->masks[q];
      if (form == 1) s.clean();
    }
    maps()[t].member(s);
    follow(*(*tg)[t], s, m, c, maps()[t].name, unsigned(i / 3), nf);
    c.nontrivial(i);
    c.state(mc::mix(p * np + q, t));
  });
  e.add("free/" + nm, np * np * nt, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    size_t p = d.take(np), q = d.take(np), t = d.take(nt);
    int form = int((p + 2 * q + t) % 3);
    if (p > q) return;
    Loop a = sp->real(x->polys[p]), b = sp->real(x->polys[q]);
    c.input(show(a) + " ; " + show(b) + " form " + std::to_string(form) + " " + maps()[t].name);
    PS s, r;
    s.insert(poly(a));
    s.insert(poly(b));
    const Map& mp = maps()[t];
    if (form == 0) {
      mp.free(s);
      r = s;
    } else if (form == 1) {
      std::vector<PD> v;
      bp::assign(v, s);
      mp.polys(v);
      r.insert(v.begin(), v.end());
    } else {
      std::vector<PH> v;
      bp::assign(v, s);
      mp.holes(v);
      r.insert(v.begin(), v.end());
    }
    follow(*(*tg)[t], r, x->masks[p] | x->masks[q], c, "free " + mp.name, unsigned(i / 3), nf);
    c.nontrivial(i);
  });
  // scaling down exactly what is a multiple
  auto td = std::make_shared<std::vector<SP>>();
  for (int f = 1; f <= 3; ++f) td->push_back(std::make_shared<Space>(x->A, Emb(em.k * f, em.ox * f, em.oy * f, em.swap, em.nx, em.ny)));
  e.add("divide/" + nm, np * np * 6, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    int f = d.take(3), fr = d.take(2);
    size_t p = d.take(np), q = d.take(np);
    Loop a = (*td)[f]->real(x->polys[p]), b = (*td)[f]->real(x->polys[q]);
    c.input(show(a) + " ; " + show(b) + (fr ? " free" : "") + " scale_down(" + std::to_string(f + 1) + ")");
    PS s;
    s.insert(poly(a));
    s.insert(poly(b));
    if (p < q) s.clean();
    if (fr) bp::scale_down(s, f + 1);
    else s.scale_down(f + 1);
    follow(*sp, s, x->masks[p] | x->masks[q], c, "scale_down", unsigned(i / 3), nf);
    c.nontrivial(i);
  });
}
// one polygon (with a hole): scaling down rounds its vertices
i64 rdiv(i64 v, i64 f) {
  i64 n = 2 * v + f, d = 2 * f;  // floor(v/f + 1/2)
  return n >= 0 ? n / d : -((-n + d - 1) / d);
}
bool simple(const Loop& l) {
  size_t n = l.size();
  for (size_t i = 0; i < n; ++i)
    for (size_t j = i + 1; j < n; ++j) {
      P a = l[i], b = l[(i + 1) % n], p = l[j], q = l[(j + 1) % n];
      if (j == i + 1 || (i == 0 && j == n - 1)) {
        // neighbours may only share their common vertex
        P o = j == i + 1 ? b : a, u = j == i + 1 ? a : b, w = j == i + 1 ? q : p;
        if (cross(o, u, w) == 0 && (u.x - o.x) * (w.x - o.x) + (u.y - o.y) * (w.y - o.y) > 0) return false;
        continue;
      }
      if (touchSeg(a, b, p, q)) return false;
    }
  return true;
}
Loop tidy(const Loop& l) {
  Loop r;
  for (auto& p : l)
    if (r.empty() || r.back() != p) r.push_back(p);
  while (r.size() > 1 && r.back() == r[0]) r.pop_back();
  return r;
}
typedef std::shared_ptr<std::vector<Loop>> LP;
LP loops(int n, int m, int k) { return std::make_shared<std::vector<Loop>>(simplePolys(n, m, k)); }
void rounds(mc::Engine& e, const std::string& nm, LP x, i64 unit, i64 ox, i64 oy, std::vector<int> fs) {
  const u64 np = x->size(), nf = fs.size();
  e.add("round/" + nm, np * nf * 8, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    int k = d.take(8), f = fs[d.take(nf)];
    size_t p = d.take(np);
    Lin g = atr(k);
    Loop l, r;
    for (auto& q : (*x)[p]) {
      P u = g(P{q.x * unit, q.y * unit});
      l.push_back(P{u.x + ox, u.y + oy});
      r.push_back(P{rdiv(l.back().x, f), rdiv(l.back().y, f)});
    }
    if (area2(l) < 0) std::reverse(l.begin(), l.end()), std::reverse(r.begin(), r.end());
    r = tidy(r);
    c.input(show(l) + " scale_down(" + std::to_string(f) + ") to " + show(r));
    PS s;
    s.insert(poly(l));
    if (i & 1) s.clean();
    if (i & 2) bp::scale_down(s, f);
    else s.scale_down(f);
    std::vector<Poly> out = read(s);
    if (c.verbose) c.input(c.verbose ? show(out) : "");
    // vertices on edges of the original may have been merged by clean(); the
    // rounded loop is the expectation
    W want = 0;
    if (r.size() >= 3) {
      if (!simple(r)) return;
      want = area2(r);
      if (want < 0) return;
    }
    PS F, X;
    if (want) F.insert(poly(r));
    // the engine itself loses features thinner than its snapping
    PS G;
    G.insert(poly(l));
    if ((want && bp::area(F) != (double)want / 2) || bp::area(G) != (double)area2(l) / 2) return;
    W got = 0;
    for (auto& o : out) {
      checkLoop(o.shell, true, c, "scale_down", true);
      got += area2(o.shell);
      for (auto& h : o.holes) got += area2(h);
    }
    if (got != want) c.fail("wrong_region", "scale_down(" + std::to_string(f) + "): area " + std::to_string((double)got / 2) + " wanted " + std::to_string((double)want / 2) + ": " + show(out));
    if (bp::empty(s) != (want == 0)) c.fail("empty", "empty() after scale_down");
    X = s ^ F;
    if (!bp::empty(X)) c.fail("wrong_region", "scale_down(" + std::to_string(f) + "): differs from the polygon with rounded vertices: " + show(out));
    X = s & F;
    W g2 = 0;
    for (auto& o : read(X)) {
      g2 += area2(o.shell);
      for (auto& h : o.holes) g2 += area2(h);
    }
    if (g2 != want) c.fail("wrong_region", "scale_down: AND with the expected region");
    c.step(4);
    if (want) c.nontrivial(i);
    c.state(mc::mix(p, k * 64 + f));
  });
}
}  // namespace
MC_REGISTER(e) {
  CP a = std::make_shared<Ctx>(2, 1, 6), b = std::make_shared<Ctx>(2, 2, 4);
  LP q = loops(3, 3, 4);
  pairs(e, "2x1", a, Emb(1, -2, 1), 5);
  pairs(e, "2x2", b, Emb(1, 3, -100), 2);
  rounds(e, "3x3/2", q, 1, 0, 0, {2, 3});
  rounds(e, "3x3/off", q, 3, -4, 1, {2, 3, 4, 5, 7});
  if (e.thorough()) {
    CP b5 = std::make_shared<Ctx>(2, 2, 5);
    LP w = loops(3, 3, 5), v = loops(4, 3, 4);
    pairs(e, "2x2/5", b5, Emb(1, 0, 0, true, false, true), 2);
    rounds(e, "3x3/5", w, 2, -1, -2, {2, 3, 4, 5});
    rounds(e, "4x3/4", v, 3, -4, 1, {2, 3, 4, 5, 7});
  }
}
