// C08: output forms and queries of 45-degree regions.
#include <list>
#include "arr45.hpp"
using namespace arr;
using namespace boost::polygon::operators;
namespace {
const i64 LO = -2147483648LL, HI = 2147483647LL;
W total(const std::vector<Poly>& v) {
  W t = 0;
  for (auto& p : v) {
    t += area2(p.shell);
    for (auto& h : p.holes) t += area2(h);
  }
  return t;
}
void trapShape(const std::vector<Poly>& v, bool vertical, mc::Case& c, const std::string& what) {
  for (auto& p : v) {
    Loop l;
    for (size_t i = 0, n = p.shell.size(); i < n; ++i)
      if (cross(p.shell[(i + n - 1) % n], p.shell[i], p.shell[(i + 1) % n]) != 0) l.push_back(p.shell[i]);
    if (l.size() != 3 && l.size() != 4) c.fail("shape", what + ": not a trapezoid or triangle: " + show(p.shell));
    i64 lo = INT64_MAX, hi = INT64_MIN;
    for (auto& q : l) {
      i64 k = vertical ? q.x : q.y;
      lo = std::min(lo, k);
      hi = std::max(hi, k);
    }
    for (auto& q : l) {
      i64 k = vertical ? q.x : q.y;
      if (k != lo && k != hi) c.fail("shape", what + ": corner inside a slice: " + show(l));
    }
    for (size_t i = 0; i < l.size(); ++i)
      if (cross(l[i], l[(i + 1) % l.size()], l[(i + 2) % l.size()]) < 0) c.fail("shape", what + ": not convex or clockwise: " + show(l));
  }
}
void forms(const Space& sp, const PS5& s, const Mask& m, const Edges* ed, mc::Case& c, unsigned sel) {
  bool none = m.none();
  std::vector<PH5> vh;
  s.get(vh);
  std::vector<Poly> h = readH(vh);
  angles(h, c, "with holes");
  region(sp, h, m, ed, c, "with holes");
  bool slanted = false, anyHole = false;
  auto one = [&](const Loop& l) {
    for (size_t j = 0; j < l.size(); ++j) slanted |= l[j].x != l[(j + 1) % l.size()].x && l[j].y != l[(j + 1) % l.size()].y;
  };
  for (auto& p : h) {
    one(p.shell);
    anyHole |= !p.holes.empty();
    for (auto& q : p.holes) one(q);
  }
  // read() above has cleaned the set
  if (s.is_manhattan() == slanted) c.fail("manhattan", "is_manhattan() is " + std::to_string(s.is_manhattan()) + " for " + show(h));
  {
    std::vector<PD5> vd;
    s.get(vd);
    std::vector<Poly> d = readD(vd);
    angles(d, c, "hole-free");
    region(sp, d, m, ed, c, "hole-free", anyHole);
    if (total(d) != sp.area2(m)) c.fail("area", "hole-free: total area wrong " + show(d));
    if (sel & 1) {
      PS5 b;
      b.insert(vd.begin(), vd.end());
      region(sp, read5(b), m, ed, c, "hole-free reinserted");
      if (!(b == s)) c.fail("equal", "set rebuilt from its hole-free polygons differs");
    }
    if (sel & 2) {
      std::vector<PD> v;
      s.get(v);
      region(sp, readD(v), m, ed, c, "hole-free as polygon", anyHole);
      std::vector<PH> w;
      s.get(w);
      region(sp, readH(w), m, ed, c, "as polygon with holes");
      std::vector<PD5> g;
      s.get_polygons(g);
      region(sp, readD(g), m, ed, c, "get_polygons", anyHole);
      std::vector<PH5> k;
      s.get_polygons_with_holes(k);
      region(sp, readH(k), m, ed, c, "get_polygons_with_holes");
    }
  }
  for (int o = 0; o < 2; ++o) {
    std::vector<PD5> vt;
    std::string what = o == 0 ? "trapezoids" : "trapezoids HORIZONTAL";
    PD5 keep = mkpoly<PD5>(Loop{P{0, 0}, P{1, 0}, P{1, 1}});
    if (o && (sel & 4)) vt.push_back(keep);
    if (o == 0 && (sel & 8)) bp::get_trapezoids(vt, s);
    else if (o == 0) s.get_trapezoids(vt);
    else if (sel & 8) bp::get_trapezoids(vt, s, bp::HORIZONTAL);
    else s.get_trapezoids(vt, bp::HORIZONTAL);
    if (o && (sel & 4)) {
      if (vt.empty() || loopOf(vt[0]) != loopOf(keep)) c.fail("append", what + ": container content lost");
      vt.erase(vt.begin());
    }
    std::vector<Poly> d = readD(vt);
    if (o)
      for (auto& p : d)
        if (area2(p.shell) < 0) std::reverse(p.shell.begin(), p.shell.end());
    trapShape(d, o == 0, c, what);
    angles(d, c, what);
    region(sp, d, m, ed, c, what, true);
    if (total(d) != sp.area2(m)) c.fail("area", what + ": total area wrong " + show(d));
  }
  if (bp::empty(s) != none) c.fail("empty", "empty() wrong");
  double ar = bp::area(s), want = (double)sp.area2(m) / 2;
  if (ar != want) c.fail("area", "area() = " + std::to_string(ar) + " wanted " + std::to_string(want));
  bp::rectangle_data<int> ex(7, 7, 8, 8);
  bool got = (sel & 1) ? s.extents(ex) : bp::extents(ex, s);
  if (got == none) c.fail("extents", "extents() return value");
  if (!none) {
    i64 x0 = INT64_MAX, x1 = INT64_MIN, y0 = INT64_MAX, y1 = INT64_MIN;
    for (size_t f = 0; f < sp.A.face.size(); ++f)
      if (m[f])
        for (auto& q : sp.A.face[f]) {
          P r = sp.e.lin(q.x * sp.e.k, q.y * sp.e.k, 1);
          x0 = std::min(x0, r.x);
          x1 = std::max(x1, r.x);
          y0 = std::min(y0, r.y);
          y1 = std::max(y1, r.y);
        }
    if (bp::xl(ex) != x0 || bp::xh(ex) != x1 || bp::yl(ex) != y0 || bp::yh(ex) != y1) c.fail("extents", "extents() wrong");
  }
  if (sel & 2) {
    PS5 b;
    b.insert(vh.begin(), vh.end());
    if (!(b == s) || b != s || !bp::equivalence(b, s)) c.fail("equal", "set rebuilt from its polygons differs");
    std::list<PH5> lh;
    bp::assign(lh, s);
    region(sp, readH(lh), m, ed, c, "assign(list)");
    if (!bp::equivalence(lh, s)) c.fail("equal", "equivalence(list, set)");
  }
  if (sel & 8) {
    PS5 b, d;
    b.set(s.value());
    if (b.is_manhattan() == slanted && !none) c.fail("manhattan", "set(value): is_manhattan() wrong");
    region(sp, read5(b), m, ed, c, "set(value)");
    d.set(vh.begin(), vh.end());
    region(sp, read5(d), m, ed, c, "set(range)");
    b.set_clean(s.value());
    region(sp, read5(b), m, ed, c, "set_clean(value)");
    if (!(b == s)) c.fail("equal", "set_clean(value)");
  }
  c.step(5);
}
void masks(mc::Engine& e, const std::string& nm, CP5 x, const Emb& em) {
  SP sp = std::make_shared<Space>(x->A, em);
  u64 nr = u64(1) << x->A.face.size();
  e.add(nm, nr, [=](u64 i, mc::Case& c) {
    c.input("faces " + std::to_string(i));
    Mask m = x->bits(i);
    Edges ed;
    PS5 s = tiles(*sp, m, &ed);
    forms(*sp, s, m, &ed, c, unsigned(mc::mix(i, 3) & 15));
    c.nontrivial(i);
  });
}
void xors(mc::Engine& e, const std::string& nm, CP5 x, const Emb& em, int n) {
  SP sp = std::make_shared<Space>(x->A, em);
  u64 np = x->polys.size(), N = n == 3 ? np * np * np : np * np;
  e.add(nm, N, [=](u64 i, mc::Case& c) {
    size_t k[3] = {size_t(i % np), size_t(i / np % np), size_t(i / np / np)};
    if (k[0] > k[1] || (n == 3 && k[1] > k[2])) return;
    Edges ed;
    PS5 s;
    Mask m;
    std::string in;
    for (int j = 0; j < n; ++j) {
      Loop l = sp->real(x->polys[k[j]]);
      ed.add(l);
      PS5 t;
      t.insert(mkpoly<PD5>(l));
      s ^= t;
      m ^= x->masks[k[j]];
      in += " ^ " + show(l);
    }
    c.input(in);
    forms(*sp, s, m, &ed, c, unsigned(mc::mix(i, 3) & 15));
    c.nontrivial(i);
  });
}
// a frame with holes: every choice of faces as holes, holes may touch each
// other and the shell
void frames(mc::Engine& e, const std::string& nm, CP5 x, CP5 inner, int dx, int dy, const Emb& em) {
  SP sp = std::make_shared<Space>(x->A, em), si = std::make_shared<Space>(inner->A, Emb(em.k));
  u64 nr = u64(1) << inner->A.face.size();
  e.add(nm, nr * 3, [=](u64 i, mc::Case& c) {
    u64 b = i / 3;
    Loop sh = {P{0, 0}, P{x->A.n, 0}, P{x->A.n, x->A.m}, P{0, x->A.m}};
    if (i % 3 == 1) sh = {P{1, 0}, P{x->A.n - 1, 0}, P{x->A.n, 1}, P{x->A.n, x->A.m - 1}, P{x->A.n - 1, x->A.m}, P{1, x->A.m}, P{0, x->A.m - 1}, P{0, 1}};
    if (i % 3 == 2) sh = {P{0, 0}, P{x->A.n, 0}, P{x->A.n, x->A.m - 1}, P{x->A.n - 1, x->A.m}, P{0, x->A.m}};
    Mask m = x->A.mask(sh);
    Loop r = sp->real(sh);
    Edges ed;
    ed.add(r);
    PS5 s;
    s.insert(mkpoly<PD5>(r));
    for (size_t f = 0; f < inner->A.face.size(); ++f)
      if (b >> f & 1) {
        Loop l, lat;
        for (auto& q : inner->A.face[f]) l.push_back(sp->e.lin((q.x + dx * inner->A.S) * em.k, (q.y + dy * inner->A.S) * em.k, 1));
        // both arrangements have the same scale
        ed.add(l);
        s.insert(mkpoly<PD5>(l), true);
        for (size_t g = 0; g < x->A.face.size(); ++g)
          if (wind(l, sp->smp[g], sp->mul)) m[g] = 0;
      }
    c.input(show(r) + " minus inner faces " + std::to_string(b));
    forms(*sp, s, m, &ed, c, unsigned(mc::mix(i, 3) & 15));
    c.nontrivial(i);
  });
}
}  // namespace
MC_REGISTER(e) {
  auto mk = [](int n, int m, int k, int q = 1) { return std::make_shared<Ctx5>(n, m, k, q); };
  CP5 s3 = mk(2, 2, 8), t3 = mk(2, 2, 4), s44 = mk(3, 3, 4), p44 = mk(3, 3, 3), x5 = mk(4, 4, 3), f33 = mk(4, 3, 3), f21 = mk(2, 1, 3);
  masks(e, "all-2x2", s3, Emb(1));
  masks(e, "all-2x2-neg", s3, Emb(3, -100, -7, true, false, true));
  masks(e, "all-2x2-hi", s3, Emb(1, HI - 4, HI - 4));
  masks(e, "all-2x2-lo", s3, Emb(1, LO, LO));
  masks(e, "all-2x2-wide", s3, Emb(1073741823, LO, LO));
  masks(e, "all-1x4", mk(1, 4, 3), Emb(1));
  masks(e, "all-4x1", mk(4, 1, 3), Emb(1));
  xors(e, "xor-4x4", s44, Emb(1), 2);
  xors(e, "xor3-3x3", t3, Emb(1), 3);
  xors(e, "xor3-4x4", p44, Emb(1, -3, -3), 3);
  frames(e, "frames-2x2", x5, s3, 1, 1, Emb(1));
  frames(e, "frames-2x1", f33, f21, 1, 1, Emb(1, -5, 9));
  if (e.thorough()) {
    masks(e, "all-5x1", mk(5, 1, 3), Emb(1));
    masks(e, "all-1x5", mk(1, 5, 3), Emb(1, -9, -9));
    xors(e, "xor3-all", s3, Emb(1), 3);
    xors(e, "xor3-4x4-4", s44, Emb(1, 1, 1), 3);
  }
}
