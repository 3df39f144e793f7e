// C33 (45-degree sets): transforming and scaling yields the image of the region
// and a usable set: all face sets of small lattices cut by both diagonals, every
// way of building the set, every map.
#include "arr45.hpp"
#include "ras4.hpp"
using namespace arr;
using namespace boost::polygon::operators;
namespace {
typedef bp::axis_transformation AT;
// p -> A p + d with A a signed axis permutation times k
struct Lin {
  i64 a, b, c, d, x, y;
  P operator()(P p) const { return P{a * p.x + b * p.y + x, c * p.x + d * p.y + y}; }
};
Lin atr(int k) {
  // flip x (bit 0), flip y (bit 1), then swap (bit 2)
  i64 sx = k & 1 ? -1 : 1, sy = k & 2 ? -1 : 1;
  return k & 4 ? Lin{0, sy, sx, 0, 0, 0} : Lin{sx, 0, 0, sy, 0, 0};
}
// the embedding of the lattice followed by the map
Emb after(const Emb& e, const Lin& m) {
  P o = m(e.lin(0, 0, 1)), u = m(e.lin(1, 0, 1)), v = m(e.lin(0, 1, 1));
  i64 ux = u.x - o.x, uy = u.y - o.y, vx = v.x - o.x, vy = v.y - o.y, k = std::abs(ux) + std::abs(uy);
  Emb r(e.k * k, o.x, o.y, ux == 0);
  r.nx = r.swap ? vx < 0 : ux < 0;
  r.ny = r.swap ? uy < 0 : vy < 0;
  return r;
}
struct Exact {
  std::string name;
  Lin l;
  std::function<void(PS5&)> member, free;
  std::function<void(std::vector<PD5>&)> polys;
  std::function<void(std::vector<PH5>&)> holes;
};
template <class M, class F>
void put(std::vector<Exact>& v, const std::string& n, Lin l, M m, F f) {
  Exact e;
  e.name = n;
  e.l = l;
  e.member = m;
  e.free = f;
  e.polys = f;
  e.holes = f;
  v.push_back(e);
}
const std::vector<Exact>& exact() {
  static std::vector<Exact> v;
  if (!v.empty()) return v;
  for (int k = 0; k < 8; ++k) {
    AT t((AT::ATR(k)));
    put(v, "transform(atr " + std::to_string(k) + ")", atr(k), [=](PS5& s) { s.transform(t); }, [=](auto& s) { bp::transform(s, t); });
    bp::transformation<int> tr(t, bp::point_data<int>(1, 2), bp::point_data<int>(5, -3));
    Lin l = atr(k);
    P q = l(P{1, 2});
    l.x = 5 - q.x;
    l.y = -3 - q.y;
    put(v, "transform(transformation " + std::to_string(k) + ")", l, [=](PS5& s) { s.transform(tr); }, [=](auto& s) { bp::transform(s, tr); });
  }
  for (int f = 1; f <= 3; ++f) put(v, "scale_up(" + std::to_string(f) + ")", Lin{f, 0, 0, f, 0, 0}, [=](PS5& s) { s.scale_up(f); }, [=](auto& s) { bp::scale_up(s, f); });
  return v;
}
// how the set is built from the faces
enum Prep { TILES, CLEAN, POLYS, MIXED, NPREP };
PS5 build(const Space& sp, const Mask& m, int prep) {
  if (prep == TILES) return tiles(sp, m);
  PS5 s = tiles(sp, m);
  if (prep == CLEAN) {
    s.clean();
    return s;
  }
  if (prep == POLYS) {
    std::vector<PH5> v;
    s.get(v);
    PS5 r;
    r.insert(v.begin(), v.end());
    return r;
  }
  // MIXED: whole squares as rectangles (a rectilinear set when nothing else is
  // in), and the first face once more
  PS5 r;
  std::map<std::pair<i64, i64>, std::vector<size_t>> sq;
  for (size_t f = 0; f < sp.A.face.size(); ++f) {
    i64 x = INT64_MAX, y = INT64_MAX;
    for (auto& q : sp.A.face[f]) x = std::min(x, q.x / sp.A.S), y = std::min(y, q.y / sp.A.S);
    sq[std::make_pair(x, y)].push_back(f);
  }
  for (auto& q : sq) {
    size_t n = 0;
    for (size_t f : q.second) n += m[f];
    if (n == q.second.size()) {
      P a = sp.real(P{q.first.first, q.first.second}), b = sp.real(P{q.first.first + 1, q.first.second + 1});
      r.insert(bp::rectangle_data<int>(int(std::min(a.x, b.x)), int(std::min(a.y, b.y)), int(std::max(a.x, b.x)), int(std::max(a.y, b.y))));
    } else
      for (size_t f : q.second)
        if (m[f]) r.insert(mkpoly<PD5>(faceLoop(sp, f)));
  }
  return r;
}
const bp::rectangle_data<int> K(-3, -2, 4, 3);
void follow(const Space& sp, PS5& s, const Mask& m, mc::Case& c, const std::string& nm, unsigned rot, int n) {
  PS5 F;
  for (size_t f = 0; f < sp.A.face.size(); ++f)
    if (m[f]) F.insert(mkpoly<PD5>(faceLoop(sp, f)));
  for (int q = 0; q < n; ++q) {
    c.step();
    switch ((q + rot) % 7) {
      case 0:
        region(sp, read5(s), m, 0, c, nm);
        break;
      case 1:
        if (bp::empty(s) != m.none()) c.fail("empty", nm + ": empty");
        break;
      case 2:
        if (!(s == F) || (s != F)) c.fail("equality", nm + ": not equal to the set of its region");
        break;
      case 3: {
        double ar = bp::area(s);
        if (ar != double(sp.area2(m)) / 2) c.fail("area", nm + ": area");
        break;
      }
      case 4: {
        PS5 a, b;
        a = s & K;
        b = F & K;
        if (!(a == b)) c.fail("wrong_region", nm + ": AND with a rectangle");
        a = K - s;
        b = K - F;
        if (!(a == b)) c.fail("wrong_region", nm + ": rectangle minus the set");
        break;
      }
      case 5: {
        PS5 d(s), g(F);
        d.insert(K);
        g.insert(K);
        if (!(d == g)) c.fail("wrong_region", nm + ": insert into a copy");
        break;
      }
      case 6: {
        std::vector<PD5> vt;
        s.get_trapezoids(vt);
        W t = 0;
        for (auto& p : vt) {
          W a = area2(loopOf(p));
          t += a < 0 ? -a : a;
        }
        if (t != sp.area2(m)) c.fail("area", nm + ": trapezoids");
      }
    }
  }
}
void exactMaps(mc::Engine& e, const std::string& nm, CP5 x, const Emb& em, int nf, int every = 1) {
  SP sp = std::make_shared<Space>(x->A, em);
  auto tg = std::make_shared<std::vector<SP>>();
  for (auto& t : exact()) tg->push_back(std::make_shared<Space>(x->A, after(em, t.l)));
  const u64 nr = u64(1) << x->A.face.size(), nt = exact().size();
  e.add("exact/" + nm, nr * nt * NPREP, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    int prep = d.take(NPREP);
    size_t t = d.take(nt);
    u64 b = d.take(nr);
    // every > 1: one way of building and one form per map and region
    if (every > 1 && (prep + b + t) % NPREP) return;
    c.input("faces " + std::to_string(b) + " prep " + std::to_string(prep) + " " + exact()[t].name);
    Mask m = x->bits(b);
    PS5 s = build(*sp, m, prep);
    exact()[t].member(s);
    follow(*(*tg)[t], s, m, c, exact()[t].name, unsigned(i / 3), nf);
    c.nontrivial(i);
    c.state(mc::mix(b, t));
  });
  e.add("free/" + nm, nr * nt * 3, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    int form = d.take(3);
    size_t t = d.take(nt);
    u64 b = d.take(nr);
    const Exact& mp = exact()[t];
    if (every > 1 && ((form + b + t) % 3 || (t & 1))) return;
    c.input("faces " + std::to_string(b) + " form " + std::to_string(form) + " " + mp.name);
    Mask m = x->bits(b);
    PS5 s = build(*sp, m, form ? CLEAN : TILES), r;
    if (form == 0) {
      mp.free(s);
      r = s;
    } else if (form == 1) {
      std::vector<PD5> v;
      bp::assign(v, s);
      mp.polys(v);
      r.insert(v.begin(), v.end());
    } else {
      std::vector<PH5> v;
      bp::assign(v, s);
      mp.holes(v);
      r.insert(v.begin(), v.end());
    }
    follow(*(*tg)[t], r, m, c, "free " + mp.name, unsigned(i / 3), nf);
    c.nontrivial(i);
    c.state(mc::mix(b, t));
  });
}
// pairs of exact maps
void twice(mc::Engine& e, const std::string& nm, CP5 x, const Emb& em) {
  SP sp = std::make_shared<Space>(x->A, em);
  const u64 nr = u64(1) << x->A.face.size(), nt = exact().size();
  auto tg = std::make_shared<std::vector<SP>>();
  for (auto& t : exact())
    for (auto& u : exact()) tg->push_back(std::make_shared<Space>(x->A, after(after(em, t.l), u.l)));
  e.add("two/" + nm, nr * nt * nt * 2, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    int prep = d.take(2);
    size_t t = d.take(nt), u = d.take(nt);
    u64 b = d.take(nr);
    c.input("faces " + std::to_string(b) + " prep " + std::to_string(prep) + " " + exact()[t].name + " then " + exact()[u].name);
    Mask m = x->bits(b);
    PS5 s = build(*sp, m, prep);
    exact()[t].member(s);
    exact()[u].member(s);
    follow(*(*tg)[t * nt + u], s, m, c, exact()[t].name + " then " + exact()[u].name, unsigned(i / 3), 3);
    c.nontrivial(i);
    c.state(mc::mix(b, t * nt + u));
  });
}
// ---- maps that round
struct Round {
  std::string name;
  double f;
  std::function<void(PS5&)> member, free;
  std::function<void(PH5&)> poly;
};
const std::vector<Round>& rounding() {
  static std::vector<Round> v;
  if (!v.empty()) return v;
  for (int f : {1, 2, 3, 5, 16}) v.push_back(Round{"scale_down(" + std::to_string(f) + ")", 1.0 / f, [=](PS5& s) { s.scale_down(f); }, [=](PS5& s) { bp::scale_down(s, f); }, [=](PH5& p) { bp::scale_down(p, f); }});
  for (double f : {0.5, 0.75, 1.5, 2.0, -1.0, -0.5}) v.push_back(Round{"scale(" + std::to_string(f) + ")", f, [=](PS5& s) { s.scale(f); }, [=](PS5& s) { bp::scale(s, f); }, [=](PH5& p) { bp::scale(p, f); }});
  return v;
}
bool crossing(const Ras4& r) {
  bool a = false, b = false;
  for (int v : r.v) a |= v > 0, b |= v < 0;
  return a && b;
}
void roundMaps(mc::Engine& e, const std::string& nm, CP5 x, const Emb& em, int every = 1) {
  SP sp = std::make_shared<Space>(x->A, em);
  const u64 nr = u64(1) << x->A.face.size(), nt = rounding().size();
  e.add("round/" + nm, nr * nt * 4, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    int prep = d.take(2) ? MIXED : TILES, fr = d.take(2);
    const Round& t = rounding()[d.take(nt)];
    u64 b = d.take(nr);
    if (every > 1 && (i & 3) != (b & 3)) return;
    c.input("faces " + std::to_string(b) + " prep " + std::to_string(prep) + (fr ? " free " : " ") + t.name);
    Mask m = x->bits(b);
    PS5 s = build(*sp, m, prep), o = tiles(*sp, m);
    std::vector<PH5> v;
    o.get(v);
    bool whole = true;
    for (auto& p : readH(v)) {
      auto one = [&](const Loop& l) {
        for (auto& q : l)
          for (i64 k : {q.x, q.y}) whole &= std::floor(k * t.f) == k * t.f;
      };
      one(p.shell);
      for (auto& h : p.holes) one(h);
    }
    std::vector<Poly> img = readH(v), before = img;
    if (whole) {
      for (auto& p : img) {
        for (auto& q : p.shell) q = P{i64(q.x * t.f), i64(q.y * t.f)};
        for (auto& h : p.holes)
          for (auto& q : h) q = P{i64(q.x * t.f), i64(q.y * t.f)};
      }
    } else {
      for (auto& p : v) t.poly(p);
      img = readH(v);
    }
    i64 w = 4;
    for (auto& p : img) {
      for (auto& q : p.shell) w = std::max({w, std::abs(q.x), std::abs(q.y)});
      for (auto& h : p.holes)
        for (auto& q : h) w = std::max({w, std::abs(q.x), std::abs(q.y)});
    }
    w += 2;
    Ras4 want(-w, -w, w, w);
    bool cr = false;
    auto put = [&](const Loop& l, int sgn) {
      if (!whole) {
        Ras4 one(-w, -w, w, w);
        one.add(l);
        cr |= crossing(one);
      }
      W a = area2(l);
      want.add(l, a > 0 ? sgn : -sgn);
    };
    for (auto& p : img) {
      put(p.shell, 1);
      for (auto& h : p.holes) put(h, -1);
    }
    (fr ? t.free : t.member)(s);
    // rounding may make a loop cross itself; only consistency is checked then
    std::vector<Poly> out = read5(s);
    angles(out, c, t.name);
    Ras4 got(-w, -w, w, w);
    PS5 F;
    for (auto& p : out) {
      got.add(p.shell);
      for (auto& h : p.holes) got.add(h);
      F.insert(mkpoly<PD5>(p.shell));
    }
    for (auto& p : out)
      for (auto& h : p.holes) F.insert(mkpoly<PD5>(h), true);
    if (c.verbose) c.input("polygons " + show(before) + " mapped " + show(img) + " result " + show(out));
    // unit squares in which two mapped edges cross off the grid
    std::vector<std::pair<P, P>> es;
    for (auto& p : img) {
      auto one = [&](const Loop& l) {
        for (size_t k = 0; k < l.size(); ++k) es.push_back(std::make_pair(l[k], l[(k + 1) % l.size()]));
      };
      one(p.shell);
      for (auto& h : p.holes) one(h);
    }
    std::set<P> off;
    for (auto& u : es)
      for (auto& v : es) {
        P a = u.first, b = u.second, p = v.first, q = v.second;
        // a-b rises, p-q falls
        if (a.x == b.x || p.x == q.x || (b.x - a.x) != (b.y - a.y) || (q.x - p.x) != -(q.y - p.y)) continue;
        i64 x2 = (p.x + p.y) - (a.y - a.x), y2 = (p.x + p.y) + (a.y - a.x);  // twice the crossing
        if (!(x2 & 1)) continue;
        if (x2 < 2 * std::max(std::min(a.x, b.x), std::min(p.x, q.x)) || x2 > 2 * std::min(std::max(a.x, b.x), std::max(p.x, q.x))) continue;
        off.insert(P{(x2 - 1) / 2, (y2 - 1) / 2});
      }
    bool any = false;
    for (size_t k = 0; k < got.v.size(); ++k) {
      if (got.v[k] < 0 || got.v[k] > 1) c.fail("overlap", t.name + ": result polygons overlap");
      any |= got.v[k] > 0;
      if (!cr && (got.v[k] > 0) != (want.v[k] > 0) && !off.count(got.square(k))) c.fail("wrong_region", t.name + ": " + (got.v[k] ? "extra" : "missing") + " area in " + got.where(k) + (whole ? " (exact)" : ""));
    }
    c.step();
    if (bp::empty(s) != !any) c.fail("empty", t.name + ": empty");
    if (!(s == F)) c.fail("equality", t.name + ": not equal to the set of its region");
    PS5 z;
    z = s - F;
    if (!bp::empty(z)) c.fail("wrong_region", t.name + ": difference with its own region");
    PS5 g(s), h(F);
    g.insert(K);
    h.insert(K);
    if (!(g == h)) c.fail("wrong_region", t.name + ": insert into a copy");
    c.step(4);
    if (!cr) c.nontrivial(i);
    c.state(mc::mix(b, u64(t.f * 1000)));
  });
}
}  // namespace
MC_REGISTER(e) {
  CP5 a = std::make_shared<Ctx5>(2, 1, 4), b = std::make_shared<Ctx5>(2, 2, 4);
  exactMaps(e, "2x1", a, Emb(1), 7);
  exactMaps(e, "2x1/far", a, Emb(2, -1000000, 2000001, true), 7);
  exactMaps(e, "2x2", b, Emb(1, -2, 1), 2, 2);
  twice(e, "2x1", a, Emb(1, -1, 0, true, true));
  roundMaps(e, "2x1/odd", a, Emb(1, -3, 1));
  roundMaps(e, "2x1/wide", a, Emb(3, -5, 2, true));
  roundMaps(e, "2x2", b, Emb(1, -1, 0), 4);
  if (e.thorough()) {
    roundMaps(e, "2x2/all", b, Emb(1, -1, 0));
    exactMaps(e, "2x2/all", b, Emb(2, -1, 3, true, false, true), 7);
    roundMaps(e, "2x2/wide", b, Emb(3, -5, 2));
    roundMaps(e, "2x2/even", b, Emb(2, 0, 0, true));
  }
}
