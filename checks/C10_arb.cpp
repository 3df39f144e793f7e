// C10: arbitrary-angle Boolean operations, against the arrangement model.
#include <list>
#include "arrlib.hpp"
using namespace arr;
using namespace boost::polygon::operators;
namespace {
const i64 LO = -2147483648LL, HI = 2147483647LL;
struct Ctx {
  Arr A;
  std::vector<Loop> polys;
  std::vector<Mask> masks;
  Ctx(int n, int m, int k) : A(n, m, false), polys(simplePolys(n, m, k)) {
    for (auto& l : polys) masks.push_back(A.mask(l));
  }
};
typedef std::shared_ptr<Ctx> CP;
typedef std::shared_ptr<Space> SP;

void all4(const Space& sp, const PS& a, const PS& b, const Mask& ma, const Mask& mb, const Edges& e, mc::Case& c) {
  PS r;
  r = a | b;
  region(sp, read(r), ma | mb, &e, c, "a|b");
  r = a & b;
  region(sp, read(r), ma & mb, &e, c, "a&b");
  r = a ^ b;
  region(sp, read(r), ma ^ mb, &e, c, "a^b");
  r = a - b;
  region(sp, read(r), ma & ~mb, &e, c, "a-b");
  c.step(4);
}
u64 mh(const Mask& m) { return std::hash<Mask>()(m); }
// every ordered pair of polygons, exact
void pairs(mc::Engine& e, const std::string& nm, CP x, const Emb& em) {
  size_t n = x->polys.size();
  SP sp = std::make_shared<Space>(x->A, em);
  e.add(nm, n * n, [=](u64 i, mc::Case& c) {
    size_t p = i % n, q = i / n;
    Loop a = sp->real(x->polys[p]), b = sp->real(x->polys[q]);
    c.input(show(a) + " ; " + show(b));
    PS A, B;
    A.insert(poly(a));
    B.insert(poly(b));
    Edges ed;
    ed.add(a);
    ed.add(b);
    all4(*sp, A, B, x->masks[p], x->masks[q], ed, c);
    c.nontrivial(i);
  });
}
// regions as overlapping insertions of two polygons each: repeated pieces and
// all multiplicities; c (op) d
void quadruples(mc::Engine& e, const std::string& nm, CP x, const Emb& em) {
  size_t n = x->polys.size();
  SP sp = std::make_shared<Space>(x->A, em);
  e.add(nm, n * n * n, [=](u64 i, mc::Case& c) {
    size_t p = i % n, q = i / n % n, s = i / n / n;
    Loop a = sp->real(x->polys[p]), b = sp->real(x->polys[q]), d = sp->real(x->polys[s]);
    c.input(show(a) + " + " + show(b) + " ; " + show(d));
    Edges ed;
    ed.add(a);
    ed.add(b);
    ed.add(d);
    PS A, D;
    A.insert(poly(a));
    A.insert(poly(b));
    D.insert(poly(d));
    const Mask &ma = x->masks[p], &mb = x->masks[q], &md = x->masks[s];
    PS r;
    switch (i % 4) {
      case 0: r = A & D; region(*sp, read(r), (ma | mb) & md, &ed, c, "(a+b)&d"); break;
      case 1: r = A - D; region(*sp, read(r), (ma | mb) & ~md, &ed, c, "(a+b)-d"); break;
      case 2: r = D - A; region(*sp, read(r), md & ~(ma | mb), &ed, c, "d-(a+b)"); break;
      default: r = A ^ D; region(*sp, read(r), (ma | mb) ^ md, &ed, c, "(a+b)^d"); break;
    }
    c.step();
    // nested expressions over the three
    PS P1, P2;
    P1.insert(poly(a));
    P2.insert(poly(b));
    switch (i / 4 % 8) {
      case 0: r = (P1 | P2) & D; region(*sp, read(r), (ma | mb) & md, &ed, c, "(a|b)&d"); break;
      case 1: r = P1 - (P2 - D); region(*sp, read(r), ma & ~(mb & ~md), &ed, c, "a-(b-d)"); break;
      case 2: r = (P1 ^ P2) ^ D; region(*sp, read(r), ma ^ mb ^ md, &ed, c, "a^b^d"); break;
      case 3: r = P1 & (P2 ^ D); region(*sp, read(r), ma & (mb ^ md), &ed, c, "a&(b^d)"); break;
      case 4: r = (P1 - P2) | (D & P2); region(*sp, read(r), (ma & ~mb) | (md & mb), &ed, c, "(a-b)|(d&b)"); break;
      case 5: r = (P1 * P2) + D; region(*sp, read(r), (ma & mb) | md, &ed, c, "a*b+d"); break;
      case 6: r = P1; r ^= P2; r -= D; region(*sp, read(r), (ma ^ mb) & ~md, &ed, c, "a^=b;-=d"); break;
      default: r = P1; r |= P2; r &= D; r ^= P1; region(*sp, read(r), ((ma | mb) & md) ^ ma, &ed, c, "a|=b;&=d;^=a"); break;
    }
    c.step();
    // hole insertion of a polygon inside an inserted one
    if ((mb & ~ma).none() && mb.any()) {
      PS h;
      h.insert(poly(a));
      h.insert(poly(b), true);
      r = h | D;
      region(*sp, read(r), (ma & ~mb) | md, &ed, c, "(a hole b)|d");
      c.step();
    }
    c.nontrivial(i);
  });
}
// operands with holes, every operand type, either winding and any start vertex
template <class T>
Loop variant(const Loop& l, T v) {
  Loop r = l;
  std::rotate(r.begin(), r.begin() + v / 4 % r.size(), r.end());
  if (v & 1) std::reverse(r.begin(), r.end());
  if (v & 2) r.push_back(r.front());
  return r;
}
void holes(mc::Engine& e, const std::string& nm, CP x, CP sh, const Emb& em) {
  // shells: sh->polys; holes: every polygon of x contained in the shell
  struct HP {
    size_t s, h;
    Mask m;
  };
  auto v = std::make_shared<std::vector<HP>>();
  SP sp = std::make_shared<Space>(x->A, em);
  for (size_t s = 0; s < sh->polys.size(); ++s)
    for (size_t h = 0; h < x->polys.size(); ++h)
      if ((x->masks[h] & ~sh->masks[s]).none() && x->masks[h] != sh->masks[s]) {
        // holes may touch the shell in points only
        bool ok = true;
        const Loop &a = sh->polys[s], &b = x->polys[h];
        for (size_t i = 0; ok && i < a.size(); ++i)
          for (size_t j = 0; ok && j < b.size(); ++j) {
            const P &p = a[i], &q = a[(i + 1) % a.size()], &r = b[j], &t = b[(j + 1) % b.size()];
            if (cross(p, q, r) == 0 && cross(p, q, t) == 0 && std::max(std::min(p, q), std::min(r, t)) < std::min(std::max(p, q), std::max(r, t))) ok = false;
          }
        if (ok) v->push_back(HP{s, h, sh->masks[s] & ~x->masks[h]});
      }
  size_t n = x->polys.size();
  e.add(nm, v->size() * n, [=](u64 i, mc::Case& c) {
    const HP& hp = (*v)[i / n];
    size_t q = i % n;
    Loop s = sp->real(sh->polys[hp.s]), h = sp->real(x->polys[hp.h]), b = sp->real(x->polys[q]);
    unsigned var = unsigned(mc::mix(i, 77) & 63);
    s = variant(s, var);
    h = variant(h, var ^ 21);
    Loop b2 = variant(b, var ^ 42);
    c.input(show(s) + " hole " + show(h) + " ; " + show(b2));
    Edges ed;
    ed.add(open(s));
    ed.add(open(h));
    ed.add(open(b));
    PH H = withHoles<PH, PD>(s, {h});
    const Mask &ma = hp.m, &mb = x->masks[q];
    PS r;
    std::vector<PH> vh(1, H);
    std::vector<PD> vd(1, poly(b2));
    std::list<PD> ld(vd.begin(), vd.end());
    PS B;
    B.insert(poly(b2));
    switch (i % 8) {
      case 0: r = vh | B; region(*sp, read(r), ma | mb, &ed, c, "vector(h)|set"); break;
      case 1: r = B - vh; region(*sp, read(r), mb & ~ma, &ed, c, "set-vector(h)"); break;
      case 2: r = vh & vd; region(*sp, read(r), ma & mb, &ed, c, "vector(h)&vector"); break;
      case 3: r = H ^ ld; region(*sp, read(r), ma ^ mb, &ed, c, "polygon(h)^list"); break;
      case 4: r = H - poly(b2); region(*sp, read(r), ma & ~mb, &ed, c, "polygon(h)-polygon"); break;
      case 5: vh -= B; region(*sp, readH(vh), ma & ~mb, &ed, c, "vector(h)-=set"); break;
      case 6: vh ^= vd; region(*sp, readH(vh), ma ^ mb, &ed, c, "vector(h)^=vector"); break;
      default: ld.push_back(poly(b2)); r = ld + H; region(*sp, read(r), ma | mb, &ed, c, "list twice+polygon(h)"); break;
    }
    PS A(vh.begin(), vh.end());
    (void)A;
    c.step();
    c.nontrivial(i);
  });
}
// operands given as rectangles and 45/90 objects mixed with arbitrary polygons
void types(mc::Engine& e, const std::string& nm, CP x, const Emb& em) {
  SP sp = std::make_shared<Space>(x->A, em);
  auto r4 = std::make_shared<std::vector<std::array<int, 4>>>();
  for (int a = 0; a <= x->A.n; ++a)
    for (int b = a + 1; b <= x->A.n; ++b)
      for (int p = 0; p <= x->A.m; ++p)
        for (int q = p + 1; q <= x->A.m; ++q) r4->push_back({a, p, b, q});
  auto p45 = std::make_shared<std::vector<std::pair<Loop, Mask>>>();
  for (auto& l : simplePolys(x->A.n, x->A.m, 5, true)) p45->push_back(std::make_pair(l, x->A.mask(l)));
  size_t n = x->polys.size(), nr = r4->size(), n5 = p45->size();
  e.add(nm + "-rect", n * nr * 2, [=](u64 i, mc::Case& c) {
    size_t q = i / 2 % n;
    auto rc = (*r4)[i / 2 / n];
    Loop rl = {P{rc[0], rc[1]}, P{rc[2], rc[1]}, P{rc[2], rc[3]}, P{rc[0], rc[3]}};
    Mask mr = x->A.mask(rl);
    P lo = sp->real(rl[0]), hi = sp->real(rl[2]);
    bp::rectangle_data<int> R(int(std::min(lo.x, hi.x)), int(std::min(lo.y, hi.y)), int(std::max(lo.x, hi.x)), int(std::max(lo.y, hi.y)));
    Loop b = sp->real(x->polys[q]);
    c.input("rectangle " + show(sp->real(rl)) + " ; " + show(b));
    Edges ed;
    ed.add(sp->real(rl));
    ed.add(b);
    PS B, r;
    B.insert(poly(b));
    const Mask& mb = x->masks[q];
    bp::polygon_90_set_data<int> s9;
    s9.insert(R);
    if (i & 1) {
      r = B & s9;
      region(*sp, read(r), mb & mr, &ed, c, "set&90set");
      r = s9 - B;
      region(*sp, read(r), mr & ~mb, &ed, c, "90set-set");
      r = B ^ bp::polygon_90_data<int>();
      region(*sp, read(r), mb, &ed, c, "set^empty");
      B.insert(s9);
      region(*sp, read(B), mb | mr, &ed, c, "insert(90set)");
    } else {
      r = B - R;
      region(*sp, read(r), mb & ~mr, &ed, c, "set-rectangle");
      r = R ^ B;
      region(*sp, read(r), mr ^ mb, &ed, c, "rectangle^set");
      B |= R;
      region(*sp, read(B), mb | mr, &ed, c, "set|=rectangle");
      B.insert(R);
      region(*sp, read(B), mb | mr, &ed, c, "insert(rectangle)");
    }
    c.step(4);
    c.nontrivial(i);
  });
  e.add(nm + "-45", n * n5, [=](u64 i, mc::Case& c) {
    size_t q = i % n;
    const Loop& l = (*p45)[i / n].first;
    const Mask &ma = (*p45)[i / n].second, &mb = x->masks[q];
    Loop a = sp->real(l), b = sp->real(x->polys[q]);
    c.input("45 " + show(a) + " ; " + show(b));
    Edges ed;
    ed.add(a);
    ed.add(b);
    bp::polygon_45_data<int> p = mkpoly<bp::polygon_45_data<int>>(a);
    bp::polygon_45_set_data<int> s;
    s.insert(p);
    PS B, r;
    B.insert(poly(b));
    switch (i % 4) {
      case 0:
        r = B | p;
        region(*sp, read(r), mb | ma, &ed, c, "set|polygon45");
        B ^= s;
        region(*sp, read(B), mb ^ ma, &ed, c, "set^=45set");
        break;
      case 1:
        r = s - B;
        region(*sp, read(r), ma & ~mb, &ed, c, "45set-set");
        B.insert(p);
        region(*sp, read(B), mb | ma, &ed, c, "insert(polygon45)");
        break;
      case 2: {
        r = B & s;
        region(*sp, read(r), mb & ma, &ed, c, "set&45set");
        bp::polygon_45_with_holes_data<int> h = mkpoly<bp::polygon_45_with_holes_data<int>>(a);
        r = h - B;
        region(*sp, read(r), ma & ~mb, &ed, c, "polygon45h-set");
        break;
      }
      default: {
        std::vector<bp::polygon_45_data<int>> v(2, p);
        r = v ^ B;
        region(*sp, read(r), ma ^ mb, &ed, c, "vector45^set");
        r = B;
        r.insert(s);
        region(*sp, read(r), mb | ma, &ed, c, "insert(45set)");
      }
    }
    c.step(2);
    c.nontrivial(i);
  });
}
// many copies above each other: the intersection finder splits by y
void stacks(mc::Engine& e, const std::string& nm, CP x, const Emb& em, int copies, int overlap) {
  size_t n = x->polys.size();
  SP sp = std::make_shared<Space>(x->A, em);
  e.add(nm, n * n, [=](u64 i, mc::Case& c) {
    size_t p = i % n, q = i / n;
    Loop a = sp->real(x->polys[p]), b = sp->real(x->polys[q]);
    c.input(show(a) + " ; " + show(b) + " copies " + std::to_string(copies) + " apart " + std::to_string(overlap));
    i64 step = sp->s * x->A.m + overlap;
    PS A, B;
    Edges ed;
    for (int k = 0; k < copies; ++k) {
      Loop s = a, t = b;
      for (auto& v : s) v.y += k * step;
      for (auto& v : t) v.y += k * step;
      A.insert(poly(s));
      B.insert(poly(t));
      ed.add(s);
      ed.add(t);
    }
    const Mask &ma = x->masks[p], &mb = x->masks[q];
    static const char* nmz[] = {"a|b", "a&b", "a^b", "a-b"};
    Mask w[4] = {ma | mb, ma & mb, ma ^ mb, ma & ~mb};
    int o = int(mc::mix(i, 5) % 4);
    PS r;
    if (o == 0) r = A | B;
    else if (o == 1) r = A & B;
    else if (o == 2) r = A ^ B;
    else r = A - B;
    std::vector<Poly> out = read(r);
    std::vector<int> cnt(sp->smp.size() * copies, 0);
    W tot = 0;
    for (auto& l : out) {
      checkLoop(l.shell, true, c, nmz[o]);
      tot += area2(l.shell);
      for (auto& h : l.holes) {
        checkLoop(h, false, c, nmz[o]);
        tot += area2(h);
      }
      for (int k = 0; k < copies; ++k)
        for (size_t f = 0; f < sp->smp.size(); ++f) {
          P s = {sp->smp[f].x, sp->smp[f].y + k * step * sp->mul};
          int& z = cnt[k * sp->smp.size() + f];
          z += wind(l.shell, s, sp->mul);
          for (auto& h : l.holes) z += wind(h, s, sp->mul);
        }
    }
    for (int k = 0; k < copies; ++k)
      for (size_t f = 0; f < sp->smp.size(); ++f)
        if (cnt[k * sp->smp.size() + f] != int(w[o][f])) c.fail("stack", std::string(nmz[o]) + " wrong in copy " + std::to_string(k) + ": " + show(out));
    if (tot != sp->area2(w[o]) * copies) c.fail("stack_area", std::string(nmz[o]) + " wrong total area: " + show(out));
    c.step(1);
    c.nontrivial(i);
  });
}
// crossings off the grid, or coordinates beyond exact long double arithmetic
void snaps(mc::Engine& e, const std::string& nm, CP x, const Emb& em, i64 unit, int grid) {
  size_t n = x->polys.size();
  SP sp = std::make_shared<Space>(x->A, em, unit);
  auto smp = std::make_shared<std::vector<P>>();
  i64 mul = sp->mul;
  if (grid) {
    mul = 15;
    for (i64 a = 0; a < unit * x->A.n; ++a)
      for (i64 b = 0; b < unit * x->A.m; ++b)
        for (int k = 0; k < grid; ++k) smp->push_back(em.lin(15 * a + (k ? 10 : 5), 15 * b + (k ? 3 : 9), 15));
  } else
    *smp = sp->smp;
  e.add(nm, n * n, [=](u64 i, mc::Case& c) {
    size_t p = i % n, q = i / n;
    Loop a = sp->real(x->polys[p]), b = sp->real(x->polys[q]);
    if (area2(a) < 0) std::reverse(a.begin(), a.end());
    if (area2(b) < 0) std::reverse(b.begin(), b.end());
    c.input(show(a) + " ; " + show(b));
    PS A, B;
    A.insert(poly(a));
    B.insert(poly(b));
    Edges ed;
    ed.add(a);
    ed.add(b);
    std::vector<char> ta(smp->size()), tb(smp->size()), t(smp->size());
    // samples on an operand edge lie within the tolerance anyway
    for (size_t f = 0; f < smp->size(); ++f) {
      ta[f] = wind(a, (*smp)[f], mul) != 0;
      tb[f] = wind(b, (*smp)[f], mul) != 0;
    }
    static const char* nmz[] = {"a|b", "a&b", "a^b", "a-b"};
    for (int o = 0; o < 4; ++o) {
      PS r;
      if (o == 0) r = A | B;
      else if (o == 1) r = A & B;
      else if (o == 2) r = A ^ B;
      else r = A - B;
      for (size_t f = 0; f < t.size(); ++f) t[f] = o == 0 ? ta[f] | tb[f] : o == 1 ? ta[f] & tb[f] : o == 2 ? ta[f] ^ tb[f] : ta[f] & !tb[f];
      snapped(*smp, mul, read(r), t, ed, 2.0, c, nmz[o]);
    }
    c.step(4);
    c.nontrivial(i);
  });
}
}  // namespace
MC_REGISTER(e) {
  auto mk = [](int n, int m, int k) { return std::make_shared<Ctx>(n, m, k); };
  CP all3 = mk(2, 2, 8), q3 = mk(2, 2, 4), t3 = mk(2, 2, 3), t4 = mk(3, 3, 3), p43 = mk(3, 2, 3);
  pairs(e, "pairs-3x3", all3, Emb(1));
  pairs(e, "tri-4x4", t4, Emb(1));
  pairs(e, "quad-neg", q3, Emb(7919, -1000003, -999983));
  pairs(e, "quad-hi", q3, Emb(1, HI - 120, HI - 120));
  pairs(e, "quad-lo", q3, Emb(1, LO, LO));
  pairs(e, "quad-mix", q3, Emb(1, LO, HI - 120));
  quadruples(e, "triples-3x3", t3, Emb(1, -60, -60));
  holes(e, "holes-3x3", q3, all3, Emb(1));
  holes(e, "holes-4x4", t4, std::make_shared<Ctx>(*[&] {
          auto c = mk(3, 3, 3);
          c->polys = {Loop{P{0, 0}, P{3, 0}, P{3, 3}, P{0, 3}}};
          c->masks = {c->A.mask(c->polys[0])};
          return c;
        }()), Emb(1));
  types(e, "types-3x3", q3, Emb(1, -7, 11));
  stacks(e, "stack-apart", q3, Emb(1), 6, 10);
  stacks(e, "stack-touch", q3, Emb(1), 6, 0);
  snaps(e, "snap-full", q3, Emb(1, LO, LO), 2147483647LL, 0);
  snaps(e, "snap-full-hi", q3, Emb(1, -HI, -HI), 2147483647LL, 0);
  snaps(e, "snap-big", t4, Emb(1, -1600000000, -1600000000), 1073741789LL, 0);
  snaps(e, "snap-1", q3, Emb(1), 1, 2);
  snaps(e, "snap-2", all3, Emb(1), 2, 2);
  snaps(e, "snap-3", all3, Emb(1, -3, -3), 3, 2);
  snaps(e, "snap-5", q3, Emb(1, -5, -5), 5, 1);
  snaps(e, "snap-7", q3, Emb(1), 7, 1);
  snaps(e, "snap-11", t3, Emb(1, -11, -11), 11, 1);
  snaps(e, "snap-97", all3, Emb(1), 97, 0);
  snaps(e, "snap4-1", t4, Emb(1), 1, 2);
  snaps(e, "snap4-3", t4, Emb(1, -5, -5), 3, 1);
  snaps(e, "snap4-89", t4, Emb(1), 89, 0);
  if (e.thorough()) {
    CP p432 = mk(3, 2, 4);
    pairs(e, "pairs-4x3", p432, Emb(1, -77, 1001));
    pairs(e, "pairs-lo-all", all3, Emb(1, LO, LO));
    quadruples(e, "triples-quads", q3, Emb(1));
    stacks(e, "stack-all", all3, Emb(1), 8, 0);
    for (int u : {1, 2, 4, 6, 13}) snaps(e, "snap43-" + std::to_string(u), p432, Emb(1, -u, 0), u, u < 5 ? 2 : 1);
  }
}
