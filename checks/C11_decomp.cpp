// C11: output forms of arbitrary-angle regions.
#include <list>
#include "arrlib.hpp"
using namespace arr;
using namespace boost::polygon::operators;
namespace {
const i64 LO = -2147483648LL, HI = 2147483647LL;
struct Ctx {
  Arr A;
  std::vector<Loop> polys;
  std::vector<Mask> masks;
  Ctx(int n, int m, int k) : A(n, m, false), polys(simplePolys(n, m, k)) {
    for (auto& l : polys) masks.push_back(A.mask(l));
  }
};
typedef std::shared_ptr<Ctx> CP;
typedef std::shared_ptr<Space> SP;

long double perimeter(const Edges& e) {
  long double p = 0;
  for (auto& s : e.e) {
    long double dx = s.first.x - s.second.x, dy = s.first.y - s.second.y;
    p += std::sqrt(dx * dx + dy * dy);
  }
  return p;
}
void trapShape(const std::vector<Poly>& v, bool vertical, mc::Case& c, const std::string& what) {
  for (auto& p : v) {
    Loop l;  // without straight angles
    for (size_t i = 0, n = p.shell.size(); i < n; ++i)
      if (cross(p.shell[(i + n - 1) % n], p.shell[i], p.shell[(i + 1) % n]) != 0) l.push_back(p.shell[i]);
    if (l.size() != 3 && l.size() != 4) c.fail("shape", what + ": not a trapezoid or triangle: " + show(l));
    i64 lo = INT64_MAX, hi = INT64_MIN;
    for (auto& q : l) {
      i64 k = vertical ? q.x : q.y;
      lo = std::min(lo, k);
      hi = std::max(hi, k);
    }
    int nl = 0, nh = 0;
    for (auto& q : l) {
      i64 k = vertical ? q.x : q.y;
      if (k == lo) ++nl;
      else if (k == hi) ++nh;
      else c.fail("shape", what + ": corner inside a slice: " + show(l));
    }
    if (nl > 2 || nh > 2) c.fail("shape", what + ": not sliced: " + show(l));
    for (size_t i = 0; i < l.size(); ++i)
      if (cross(l[i], l[(i + 1) % l.size()], l[(i + 2) % l.size()]) < 0) c.fail("shape", what + ": not convex: " + show(l));
  }
}
// same mask, other samples and tolerance; exact < 0: exact
struct Truth {
  const Space* sp;
  const std::vector<P>* smp;
  i64 mul;
  std::vector<char> in;
};
long double total(const std::vector<Poly>& v) {
  W t = 0;
  for (auto& p : v) {
    t += area2(p.shell);
    for (auto& h : p.holes) t += area2(h);
  }
  return (long double)t / 2;
}
// rounding may close up a slice thinner than one unit
std::vector<Poly> squeeze(const std::vector<Poly>& v) {
  std::vector<Poly> r;
  for (auto& p : v) {
    Poly q;
    for (size_t i = 0; i < p.shell.size(); ++i)
      if (p.shell[i] != p.shell[(i + 1) % p.shell.size()]) q.shell.push_back(p.shell[i]);
    if (q.shell.size() >= 3 && area2(q.shell) != 0) r.push_back(q);
  }
  return r;
}
void approx(const Truth& t, const std::vector<Poly>& out, const Edges& ed, double tol, long double want, mc::Case& c, const std::string& what, bool keyhole) {
  snapped(*t.smp, t.mul, out, t.in, ed, tol, c, what, keyhole, false, true);
  long double d = total(out) - want;
  if ((d < 0 ? -d : d) > tol * (perimeter(ed) + 8)) c.fail("area", what + ": total area off by more than rounding: " + show(out));
}
// exactCuts: every vertical and horizontal line through an arrangement vertex
// meets every edge in an integer point
void forms(const Space& sp, const PS& s, const Mask& m, const Edges& ed, bool exactCuts, mc::Case& c, unsigned sel) {
  Truth t;
  t.sp = &sp;
  t.smp = &sp.smp;
  t.mul = sp.mul;
  for (size_t f = 0; f < sp.smp.size(); ++f) t.in.push_back(m[f]);
  long double want = (long double)sp.area2(m) / 2;
  bool none = m.none();
  // 1. with holes
  std::vector<PH> vh;
  s.get(vh);
  std::vector<Poly> h = readH(vh);
  region(sp, h, m, &ed, c, "with holes");
  if (none && !vh.empty()) c.fail("empty", "pieces of an empty region: " + show(h));
  // 2. hole-free
  {
    std::vector<PD> vd;
    s.get(vd);
    std::vector<Poly> d = readD(vd);
    bool anyHole = false;
    for (auto& p : h) anyHole |= !p.holes.empty();
    if (!anyHole || exactCuts)
      region(sp, d, m, &ed, c, "hole-free", anyHole);
    else
      approx(t, d, ed, 1.0, want, c, "hole-free", true);
    if (exactCuts && total(d) != want) c.fail("area", "hole-free: total area wrong " + show(d));
    if (sel & 1) {
      PS b(vd.begin(), vd.end());
      if (!anyHole || exactCuts) region(sp, read(b), m, &ed, c, "hole-free reinserted");
      else approx(t, read(b), ed, 1.0, want, c, "hole-free reinserted", false);
    }
  }
  // 3. trapezoids
  for (int o = 0; o < 3; ++o) {
    std::vector<PD> vt;
    std::string what = o == 0 ? "trapezoids" : o == 1 ? "trapezoids VERTICAL" : "trapezoids HORIZONTAL";
    if (o == 1 && !(sel & 2)) continue;
    PD keep = mkpoly<PD>(Loop{P{0, 0}, P{1, 0}, P{0, 1}});
    if (o == 2) vt.push_back(keep);  // appended to
    if (o == 0) s.get_trapezoids(vt);
    else s.get_trapezoids(vt, o == 1 ? bp::VERTICAL : bp::HORIZONTAL);
    if (o == 2) {
      if (vt.empty() || loopOf(vt[0]) != loopOf(keep)) c.fail("append", what + ": container content lost");
      vt.erase(vt.begin());
    }
    std::vector<Poly> d = readD(vt);
    // transformed pieces come out clockwise: only the covered set counts
    if (o == 2)
      for (auto& p : d)
        if (area2(p.shell) < 0) std::reverse(p.shell.begin(), p.shell.end());
    trapShape(d, o != 2, c, what);
    {
      if (exactCuts) region(sp, d, m, &ed, c, what, true);
      else approx(t, d, ed, 1.0, want, c, what, true);
    }
    if (exactCuts && total(d) != want) c.fail("area", what + ": total area wrong " + show(d));
    if (o == 0 && (sel & 4)) {
      PS b(vt.begin(), vt.end());
      if (exactCuts) region(sp, read(b), m, &ed, c, "trapezoids reinserted");
    }
  }
  // 4. queries
  if (bp::empty(s) != none) c.fail("empty", "empty() wrong");
  long double ar = bp::area(s);
  if (std::fabs((double)(ar - want)) > 1e-12 * (double)want) c.fail("area", "area() = " + std::to_string((double)ar) + " wanted " + std::to_string((double)want));
  bp::rectangle_data<int> ex(7, 7, 8, 8);
  bool got = bp::extents(ex, s);
  if (got == none) c.fail("extents", "extents() return value");
  if (!none) {
    i64 x0 = INT64_MAX, x1 = INT64_MIN, y0 = INT64_MAX, y1 = INT64_MIN;
    for (size_t f = 0; f < sp.A.face.size(); ++f)
      if (m[f])
        for (auto& q : sp.A.face[f]) {
          P r = sp.e.lin(q.x * sp.e.k, q.y * sp.e.k, 1);
          x0 = std::min(x0, r.x);
          x1 = std::max(x1, r.x);
          y0 = std::min(y0, r.y);
          y1 = std::max(y1, r.y);
        }
    if (bp::xl(ex) != x0 || bp::xh(ex) != x1 || bp::yl(ex) != y0 || bp::yh(ex) != y1) c.fail("extents", "extents() = " + std::to_string(bp::xl(ex)) + ".." + std::to_string(bp::xh(ex)) + " x " + std::to_string(bp::yl(ex)) + ".." + std::to_string(bp::yh(ex)));
  }
  // 5. reinsertion
  if (sel & 8) {
    PS b(vh.begin(), vh.end());
    if (!(b == s) || b != s || !bp::equivalence(b, s)) c.fail("equal", "set built from its own output differs");
    std::vector<PH> v2;
    b.get(v2);
    region(sp, readH(v2), m, &ed, c, "reinserted");
    std::list<PH> lh;
    bp::assign(lh, s);
    region(sp, readH(lh), m, &ed, c, "assign(list)");
    std::vector<PD> ld;
    bp::assign(ld, vh);
    if (bp::area(ld) != bp::area(s) && exactCuts) c.fail("assign", "assign(vector<polygon>, vector<with holes>) changed the area");
  }
  c.step(4);
}
unsigned sel(u64 i) { return unsigned(mc::mix(i, 3)) & 15; }
void singles(mc::Engine& e, const std::string& nm, CP x, const Emb& em, bool exact) {
  SP sp = std::make_shared<Space>(x->A, em);
  e.add(nm, x->polys.size(), [=](u64 i, mc::Case& c) {
    Loop a = sp->real(x->polys[i]);
    c.input(show(a));
    PS s;
    s.insert(poly(a));
    Edges ed;
    ed.add(a);
    forms(*sp, s, x->masks[i], ed, exact, c, 15);
    c.nontrivial(i);
  });
}
void pairs(mc::Engine& e, const std::string& nm, CP x, const Emb& em, bool exact, int op) {
  size_t n = x->polys.size();
  SP sp = std::make_shared<Space>(x->A, em);
  e.add(nm, n * n, [=](u64 i, mc::Case& c) {
    size_t p = i % n, q = i / n;
    if (op != 2 && p > q) return;
    Loop a = sp->real(x->polys[p]), b = sp->real(x->polys[q]);
    c.input(show(a) + (op == 0 ? " ^ " : op == 1 ? " | " : " - ") + show(b));
    PS A, B, s;
    A.insert(poly(a));
    B.insert(poly(b));
    Edges ed;
    ed.add(a);
    ed.add(b);
    const Mask &ma = x->masks[p], &mb = x->masks[q];
    Mask m = op == 0 ? ma ^ mb : op == 1 ? ma | mb : ma & ~mb;
    if (op == 0) s = A ^ B;
    else if (op == 1) s = A | B;
    else s = A - B;
    forms(*sp, s, m, ed, exact, c, sel(i));
    c.nontrivial(i);
  });
}
void triples(mc::Engine& e, const std::string& nm, CP x, const Emb& em, bool exact) {
  size_t n = x->polys.size();
  SP sp = std::make_shared<Space>(x->A, em);
  e.add(nm, n * n * n, [=](u64 i, mc::Case& c) {
    size_t p = i % n, q = i / n % n, r = i / n / n;
    if (p > q || q > r) return;
    Loop a = sp->real(x->polys[p]), b = sp->real(x->polys[q]), d = sp->real(x->polys[r]);
    c.input(show(a) + " ^ " + show(b) + " ^ " + show(d));
    PS A, B, D, s;
    A.insert(poly(a));
    B.insert(poly(b));
    D.insert(poly(d));
    Edges ed;
    ed.add(a);
    ed.add(b);
    ed.add(d);
    s = (A ^ B) ^ D;
    forms(*sp, s, x->masks[p] ^ x->masks[q] ^ x->masks[r], ed, exact, c, sel(i));
    c.nontrivial(i);
  });
}
// square shell minus one or two disjoint triangular holes (may touch in points)
void holed(mc::Engine& e, const std::string& nm, CP x, const Emb& em, bool exact, int stride) {
  size_t n = x->polys.size();
  SP sp = std::make_shared<Space>(x->A, em);
  i64 N = x->A.n, M = x->A.m;
  Loop shell = {P{0, 0}, P{N, 0}, P{N, M}, P{0, M}};
  auto pr = std::make_shared<std::vector<std::pair<int, int>>>();
  for (size_t p = 0; p < n; ++p)
    for (size_t q = p; q < n; ++q)
      if (p == q || (x->masks[p] & x->masks[q]).none()) pr->push_back(std::make_pair(p, q));
  Mask full = x->A.mask(shell);
  e.add(nm, (pr->size() + stride - 1) / stride, [=](u64 i0, mc::Case& c) {
    u64 i = i0 * stride + (stride > 1 ? mc::mix(i0, 9) % stride : 0);
    if (i >= pr->size()) return;
    size_t p = (*pr)[i].first, q = (*pr)[i].second;
    Loop s = sp->real(shell), a = sp->real(x->polys[p]), b = sp->real(x->polys[q]);
    c.input(show(s) + " minus " + show(a) + (p == q ? std::string() : " and " + show(b)));
    PS A;
    A.insert(poly(s));
    A.insert(poly(a), true);
    if (p != q) A.insert(poly(b), true);
    Edges ed;
    ed.add(s);
    ed.add(a);
    ed.add(b);
    forms(*sp, A, full & ~(x->masks[p] | x->masks[q]), ed, exact, c, sel(i));
    c.nontrivial(i);
  });
}
// unscaled lattices: output cuts fall off the grid.  The operands do not cross,
// so the region itself is exact.
void tiny(mc::Engine& e, const std::string& nm, CP x, const Emb& em, i64 unit, bool withShell) {
  size_t n = x->polys.size();
  SP sp = std::make_shared<Space>(x->A, em, unit);
  i64 N = x->A.n, M = x->A.m;
  e.add(nm, n, [=](u64 i, mc::Case& c) {
    Loop a = sp->real(x->polys[i]);
    Mask m = x->masks[i];
    PS s;
    Edges ed;
    ed.add(a);
    if (withShell) {
      Loop sh = {P{-1, -1}, P{N + 1, -1}, P{N + 1, M + 1}, P{-1, M + 1}};
      switch (mc::mix(i, 4) % 3) {
        case 1: sh = {P{-1, -1}, P{2 * N + 3, -1}, P{-1, 2 * M + 3}}; break;
        case 2: sh = {P{-1 - N, -1}, P{N + 1, -2}, P{N + 2, M + 1}, P{-1, M + 2}}; break;
      }
      sh = sp->real(sh);
      ed.add(sh);
      s.insert(poly(sh));
      s.insert(poly(a), true);
      c.input(show(sh) + " minus " + show(a));
    } else {
      s.insert(poly(a));
      c.input(show(a));
    }
    Truth t;
    std::vector<char> in;
    t.sp = &*sp;
    t.smp = &sp->smp;
    t.mul = sp->mul;
    for (size_t f = 0; f < sp->smp.size(); ++f) t.in.push_back(withShell ? !m[f] : m[f]);
    W a2s = 0;
    for (size_t f = 0; f < x->A.face.size(); ++f)
      if (m[f]) a2s += x->A.a2[f];
    long double want = (long double)a2s / ((long double)x->A.S * x->A.S) * unit * unit / 2;
    std::vector<PH> vh;
    s.get(vh);
    std::vector<Poly> h = readH(vh);
    want = total(h);  // compared with exact samples and edges below
    // vertices nearer than the snapping distance to another edge may move
    bool close = false;
    for (auto& g : ed.e)
      for (auto& k : ed.e)
        if (k.first != g.first && k.first != g.second && distSeg(D2{(long double)k.first.x, (long double)k.first.y}, g.first, g.second) < 1.5L) close = true;
    double tol = close ? 2.0 : 1.0;
    snapped(*t.smp, t.mul, h, t.in, ed, close ? 2.0 : 0.0, c, "with holes", false, true);
    std::vector<PD> vd;
    s.get(vd);
    approx(t, readD(vd), ed, tol, want, c, "hole-free", true);
    for (int o = 0; o < 2; ++o) {
      std::vector<PD> vt;
      s.get_trapezoids(vt, o ? bp::HORIZONTAL : bp::VERTICAL);
      std::vector<Poly> d = readD(vt);
      if (o)
        for (auto& p : d)
          if (area2(p.shell) < 0) std::reverse(p.shell.begin(), p.shell.end());
      approx(t, squeeze(d), ed, tol, want, c, o ? "trapezoids HORIZONTAL" : "trapezoids", true);
    }
    c.step(4);
    c.nontrivial(i);
  });
}
}  // namespace
MC_REGISTER(e) {
  auto mk = [](int n, int m, int k) { return std::make_shared<Ctx>(n, m, k); };
  CP all3 = mk(2, 2, 8), q3 = mk(2, 2, 4), t3 = mk(2, 2, 3), t4 = mk(3, 3, 3), p43 = mk(3, 2, 5);
  singles(e, "single-3x3", all3, Emb(2), true);
  singles(e, "single-3x3-odd", all3, Emb(1, 5, -17), false);
  singles(e, "single-4x3", p43, Emb(1), false);
  singles(e, "single-hi", all3, Emb(1, HI - 120, HI - 120), false);
  singles(e, "single-lo", all3, Emb(1, LO, LO), false);
  pairs(e, "xor-3x3", all3, Emb(2), true, 0);
  pairs(e, "sub-3x3", q3, Emb(2, -1000, -1000), true, 2);
  pairs(e, "or-3x3", q3, Emb(1), false, 1);
  pairs(e, "xor-hi", q3, Emb(1, HI - 120, LO), false, 0);
  pairs(e, "xor-4x4", t4, Emb(1), false, 0);
  triples(e, "xor3-3x3", t3, Emb(2), true);
  holed(e, "holed-3x3", q3, Emb(2), true, 1);
  holed(e, "holed-4x4", t4, Emb(6), true, 1);
  for (int u : {1, 2, 3, 5, 7}) {
    tiny(e, "tiny3-" + std::to_string(u), all3, Emb(1, -u, -u), u, false);
    tiny(e, "tiny4-" + std::to_string(u), t4, Emb(1), u, false);
    tiny(e, "tinyh3-" + std::to_string(u), all3, Emb(1, -u, -u), u, true);
    tiny(e, "tinyh4-" + std::to_string(u), t4, Emb(1), u, true);
    tiny(e, "tinyh43-" + std::to_string(u), p43, Emb(1), u, true);
  }
  if (e.thorough()) {
    CP q4 = mk(3, 3, 5), p432 = mk(3, 2, 4);
    singles(e, "single-4x4", q4, Emb(6, -100, 9), true);
    pairs(e, "xor-4x3", p432, Emb(6), true, 0);
    pairs(e, "sub-4x3", p432, Emb(1, LO, HI - 100000), false, 2);
    pairs(e, "sub-4x4", t4, Emb(6), true, 2);
    holed(e, "holed-4x4-odd", t4, Emb(1, LO, LO), false, 1);
    for (int u : {1, 2, 3}) {
      tiny(e, "tiny44-" + std::to_string(u), q4, Emb(1), u, false);
      tiny(e, "tinyh44-" + std::to_string(u), q4, Emb(1), u, true);
    }
  }
}
