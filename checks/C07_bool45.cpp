// C07: Boolean operations on 45-degree regions, against the arrangement model.
#include <list>
#include "arr45.hpp"
using namespace arr;
using namespace boost::polygon::operators;
namespace {
const i64 LO = -2147483648LL, HI = 2147483647LL;
const char* NM[] = {"a|b", "a&b", "a-b", "a^b"};
Mask opm(int o, const Mask& a, const Mask& b) { return o == 0 ? a | b : o == 1 ? a & b : o == 2 ? a & ~b : a ^ b; }
template <class A, class B>
PS5 opl(int o, const A& a, const B& b) {
  PS5 r;
  if (o == 0) r = a | b;
  else if (o == 1) r = a & b;
  else if (o == 2) r = a - b;
  else r = a ^ b;
  return r;
}
void chk(const Space& sp, const PS5& r, const Mask& m, const Edges* ed, mc::Case& c, const std::string& what) {
  std::vector<Poly> o = read5(r);
  angles(o, c, what);
  region(sp, o, m, ed, c, what);
  if (r.has_error_data()) c.fail("error_data", what + ": crossings are integral but error data was recorded");
}
// any region x any polygon
void masksPolys(mc::Engine& e, const std::string& nm, CP5 x, const Emb& em, bool pairsOfMasks) {
  SP sp = std::make_shared<Space>(x->A, em);
  u64 nf = x->A.face.size(), nr = u64(1) << nf, n2 = pairsOfMasks ? nr : x->polys.size();
  e.add(nm, nr * n2, [=](u64 i, mc::Case& c) {
    u64 b = i % nr, q = i / nr;
    Mask ma = x->bits(b), mb = pairsOfMasks ? x->bits(q) : x->masks[q];
    c.input("faces " + std::to_string(b) + " ; " + (pairsOfMasks ? "faces " + std::to_string(q) : show(sp->real(x->polys[q]))));
    Edges ed;
    PS5 A = tiles(*sp, ma, &ed), B;
    if (pairsOfMasks) B = tiles(*sp, mb, &ed);
    else {
      Loop l = sp->real(x->polys[q]);
      if (area2(l) < 0) std::reverse(l.begin(), l.end());
      ed.add(l);
      B.insert(mkpoly<PD5>(l));
    }
    int k = pairsOfMasks ? 4 : 1;
    for (int j = 0; j < k; ++j) {
      int o = k == 4 ? j : int(mc::mix(i, 11) % 4);
      chk(*sp, opl(o, A, B), opm(o, ma, mb), &ed, c, NM[o]);
    }
    c.step(k);
    c.nontrivial(i);
  });
}
// polygons, all operand types, windings and start vertices
Loop variant(const Loop& l, unsigned v) {
  Loop r = l;
  std::rotate(r.begin(), r.begin() + v / 4 % r.size(), r.end());
  if (v & 1) std::reverse(r.begin(), r.end());
  if (v & 2) r.push_back(r.front());
  return r;
}
void pairs(mc::Engine& e, const std::string& nm, CP5 x, const Emb& em) {
  SP sp = std::make_shared<Space>(x->A, em);
  size_t n = x->polys.size();
  e.add(nm, n * n, [=](u64 i, mc::Case& c) {
    size_t p = i % n, q = i / n;
    unsigned var = unsigned(mc::mix(i, 8) & 255);
    Loop a = sp->real(x->polys[p]), b = sp->real(x->polys[q]);
    Edges ed;
    ed.add(a);
    ed.add(b);
    a = variant(a, var);
    b = variant(b, var >> 4);
    c.input(show(a) + " ; " + show(b));
    const Mask &ma = x->masks[p], &mb = x->masks[q];
    PD5 pa = mkpoly<PD5>(a), pb = mkpoly<PD5>(b);
    PS5 A, B, r;
    A.insert(pa);
    B.insert(pb);
    for (int o = 0; o < 4; ++o) chk(*sp, opl(o, A, B), opm(o, ma, mb), &ed, c, NM[o]);
    int o = int(mc::mix(i, 21) % 4);
    Mask w = opm(o, ma, mb);
    std::string nmz = std::string(NM[o]) + " ";
    switch (mc::mix(i, 22) % 8) {
      case 0: chk(*sp, opl(o, pa, pb), w, &ed, c, nmz + "polygon, polygon"); break;
      case 1: chk(*sp, opl(o, std::vector<PD5>(2, pa), B), w, &ed, c, nmz + "vector twice, set"); break;
      case 2: chk(*sp, opl(o, A, std::list<PH5>(1, mkpoly<PH5>(b))), w, &ed, c, nmz + "set, list(h)"); break;
      case 3: chk(*sp, opl(o, mkpoly<PH5>(a), std::vector<PD5>(1, pb)), w, &ed, c, nmz + "polygon(h), vector"); break;
      case 4: {
        if (o == 0) A |= B;
        else if (o == 1) A &= B;
        else if (o == 2) A -= B;
        else A ^= B;
        chk(*sp, A, w, &ed, c, nmz + "assigning");
        break;
      }
      case 5: {
        std::vector<PD5> v(1, pa);
        if (o == 0) v |= pb;
        else if (o == 1) v &= pb;
        else if (o == 2) v -= pb;
        else v ^= pb;
        region(*sp, readD(v), w, 0, c, nmz + "assigning to vector", true);
        break;
      }
      case 6: {
        PS5 t;
        t = opl(o, A, B);
        r = (t | A) - (t & B);
        chk(*sp, r, (w | ma) & ~(w & mb), &ed, c, nmz + "nested");
        if (o == 0) A += pb;
        else if (o == 1) A *= pb;
        else A ^= pb;
        chk(*sp, A, o == 0 ? ma | mb : o == 1 ? ma & mb : ma ^ mb, &ed, c, "+=,*=,^=");
        break;
      }
      default: {
        // counts
        PS5 t;
        t.insert(pa);
        t.insert(pb);
        PS5 u = t;
        u.self_intersect();
        chk(*sp, u, ma & mb, &ed, c, "self_intersect");
        u = t;
        u.self_xor();
        chk(*sp, u, ma ^ mb, &ed, c, "self_xor");
        u = t;
        u.insert(pb);
        u.self_intersect();
        chk(*sp, u, mb, &ed, c, "self_intersect of three");
        std::vector<PD5> v;
        v.push_back(pa);
        v.push_back(pb);
        std::vector<PD5> v2 = v;
        bp::self_intersect(v);
        region(*sp, readD(v), ma & mb, 0, c, "self_intersect(vector)", true);
        bp::self_xor(v2);
        region(*sp, readD(v2), ma ^ mb, 0, c, "self_xor(vector)", true);
        t.clear();
        t.insert(pa);
        t.insert(pb, true);
        chk(*sp, t, ma & ~mb, &ed, c, "insert as hole");
      }
    }
    c.step(5);
    c.nontrivial(i);
  });
}
// three regions with multiplicity, subtractive inserts
void triples(mc::Engine& e, const std::string& nm, CP5 x, const Emb& em) {
  SP sp = std::make_shared<Space>(x->A, em);
  size_t n = x->polys.size();
  e.add(nm, n * n * n, [=](u64 i, mc::Case& c) {
    size_t k[3] = {size_t(i % n), size_t(i / n % n), size_t(i / n / n)};
    if (k[0] > k[1]) return;
    Edges ed;
    PS5 s;
    std::vector<int> cnt(x->A.face.size(), 0);
    unsigned hole = unsigned(mc::mix(i, 2) % 3);
    std::string in;
    for (int j = 0; j < 3; ++j) {
      Loop l = sp->real(x->polys[k[j]]);
      ed.add(l);
      bool h = j == 2 && hole == 0;
      s.insert(mkpoly<PD5>(l), h);
      for (size_t f = 0; f < cnt.size(); ++f)
        if (x->masks[k[j]][f]) cnt[f] += h ? -1 : 1;
      in += (h ? " minus " : " plus ") + show(l);
    }
    c.input(in);
    Mask u, t, o;
    for (size_t f = 0; f < cnt.size(); ++f) {
      u[f] = cnt[f] > 0;
      t[f] = cnt[f] > 1;
      o[f] = (cnt[f] & 1) != 0;
    }
    PS5 r = s;
    r.clean();
    chk(*sp, r, u, &ed, c, "union");
    if (r.is_manhattan()) {
      for (auto& p : read5(r))
        for (size_t j = 0; j < p.shell.size(); ++j)
          if (p.shell[j].x != p.shell[(j + 1) % p.shell.size()].x && p.shell[j].y != p.shell[(j + 1) % p.shell.size()].y) c.fail("manhattan", "is_manhattan but " + show(p.shell));
    } else {
      bool any = false;
      auto one = [&](const Loop& l) {
        for (size_t j = 0; j < l.size(); ++j) any |= l[j].x != l[(j + 1) % l.size()].x && l[j].y != l[(j + 1) % l.size()].y;
      };
      for (auto& p : read5(r)) {
        one(p.shell);
        for (auto& h : p.holes) one(h);
      }
      if (!any) c.fail("manhattan", "not is_manhattan but without 45-degree edges");
    }
    if (hole) {
      r = s;
      r.self_intersect();
      chk(*sp, r, t, &ed, c, "self_intersect");
      r = s;
      r.self_xor();
      chk(*sp, r, o, &ed, c, "self_xor");
    }
    c.step(3);
    c.nontrivial(i);
  });
}
// mixed with rectilinear operands
void mixed(mc::Engine& e, const std::string& nm, CP5 x, const Emb& em) {
  SP sp = std::make_shared<Space>(x->A, em);
  auto rc = std::make_shared<std::vector<Loop>>();
  for (auto& l : x->polys) {
    bool ok = true;
    for (size_t i = 0; i < l.size(); ++i) ok &= l[i].x == l[(i + 1) % l.size()].x || l[i].y == l[(i + 1) % l.size()].y;
    if (ok) rc->push_back(l);
  }
  size_t n = x->polys.size(), m = rc->size();
  e.add(nm, n * m * 8, [=](u64 i, mc::Case& c) {
    size_t p = i % n, q = i / n % m;
    unsigned kind = unsigned(i / n / m);
    Loop a = sp->real(x->polys[p]), b = sp->real((*rc)[q]);
    if (area2(b) < 0) std::reverse(b.begin(), b.end());
    Mask ma = x->masks[p], mb = x->A.mask((*rc)[q]);
    c.input(show(a) + " ; rectilinear " + show(b) + " kind " + std::to_string(kind));
    Edges ed;
    ed.add(a);
    ed.add(b);
    PS5 A;
    A.insert(mkpoly<PD5>(a));
    std::vector<Pt> v = pts(b);
    bp::polygon_90_data<int> p9;
    bp::set_points(p9, v.begin(), v.end());
    bp::polygon_90_with_holes_data<int> h9;
    bp::set_points(h9, v.begin(), v.end());
    bp::polygon_90_set_data<int> sh(bp::HORIZONTAL), sv(bp::VERTICAL);
    sh.insert(p9);
    sv.insert(p9);
    bool isR = b.size() == 4;
    bp::rectangle_data<int> R;
    if (isR) bp::extents(R, p9);
    int o = int(mc::mix(i, 3) % 4);
    Mask w = opm(o, ma, mb), w2 = opm(o, mb, ma);
    std::string s = NM[o];
    switch (kind) {
      case 0:
        chk(*sp, opl(o, A, sh), w, &ed, c, s + " with 90set H");
        chk(*sp, opl(o, sv, A), w2, &ed, c, s + " 90set V first");
        break;
      case 1:
        chk(*sp, opl(o, A, p9), w, &ed, c, s + " with polygon90");
        chk(*sp, opl(o, h9, A), w2, &ed, c, s + " polygon90h first");
        break;
      case 2:
        if (!isR) return;
        chk(*sp, opl(o, A, R), w, &ed, c, s + " with rectangle");
        chk(*sp, opl(o, std::vector<bp::rectangle_data<int>>(2, R), A), w2, &ed, c, s + " rectangles first");
        break;
      case 3: {
        PS5 t = A;
        t.insert(sh);
        chk(*sp, t, ma | mb, &ed, c, "insert(90set H)");
        t = A;
        t.insert(sv, false);
        chk(*sp, t, ma | mb, &ed, c, "insert(90set V)");
        break;
      }
      case 4: {
        PS5 t = A;
        t.insert(sh, true);
        chk(*sp, t, ma & ~mb, &ed, c, "insert(90set H, hole)");
        t = A;
        t.insert(sv, true);
        chk(*sp, t, ma & ~mb, &ed, c, "insert(90set V, hole)");
        break;
      }
      case 5: {
        PS5 t = A;
        t.insert(p9, true);
        chk(*sp, t, ma & ~mb, &ed, c, "insert(polygon90, hole)");
        t = A;
        t.insert(h9, true);
        chk(*sp, t, ma & ~mb, &ed, c, "insert(polygon90h, hole)");
        if (isR) {
          t = A;
          t.insert(R, true);
          chk(*sp, t, ma & ~mb, &ed, c, "insert(rectangle, hole)");
          t = A;
          t.insert(R);
          chk(*sp, t, ma | mb, &ed, c, "insert(rectangle)");
        }
        break;
      }
      case 6: {
        PS5 t;
        t = p9;
        chk(*sp, opl(o, t, A), w2, &ed, c, s + " assigned polygon90");
        PS5 u(sh);
        if (!u.is_manhattan()) c.fail("manhattan", "rectilinear set is not manhattan");
        chk(*sp, opl(o, A, u), w, &ed, c, s + " constructed from 90set");
        A.insert(A.begin(), A.end());
        chk(*sp, A, ma, &ed, c, "insert own range");
        break;
      }
      default: {
        PS5 t = A, u;
        u.insert(mkpoly<PD5>(b));
        t.insert(u, true);
        chk(*sp, t, ma & ~mb, &ed, c, "insert(45set, hole)");
        t = A;
        t.insert(u.begin(), u.end(), true);
        chk(*sp, t, ma & ~mb, &ed, c, "insert(45set range, hole)");
        t = A;
        std::vector<PS5> vs(2, u);
        t.insert(vs.begin(), vs.end());
        chk(*sp, t, ma | mb, &ed, c, "insert(range of 45sets)");
        t.set(u.begin(), u.end());
        chk(*sp, t, mb, &ed, c, "set(range)");
        bp::polygon_45_set_data<long long> big;
        big.insert(A);
        PS5 back;
        back.insert(big);
        chk(*sp, back, ma, &ed, c, "via other coordinate type");
      }
    }
    c.step(2);
    c.nontrivial(i);
  });
}
// polygons with a hole
void holed(mc::Engine& e, const std::string& nm, CP5 x, const Emb& em) {
  SP sp = std::make_shared<Space>(x->A, em);
  size_t n = x->polys.size();
  auto hp = std::make_shared<std::vector<std::pair<int, int>>>();
  for (size_t s = 0; s < n; ++s)
    for (size_t h = 0; h < n; ++h) {
      if ((x->masks[h] & ~x->masks[s]).any() || x->masks[h] == x->masks[s]) continue;
      bool ok = true;
      const Loop &a = x->polys[s], &b = x->polys[h];
      for (size_t i = 0; ok && i < a.size(); ++i)
        for (size_t j = 0; ok && j < b.size(); ++j) {
          const P &p = a[i], &q = a[(i + 1) % a.size()], &r = b[j], &t = b[(j + 1) % b.size()];
          if (cross(p, q, r) == 0 && cross(p, q, t) == 0 && std::max(std::min(p, q), std::min(r, t)) < std::min(std::max(p, q), std::max(r, t))) ok = false;
        }
      if (ok) hp->push_back(std::make_pair(int(s), int(h)));
    }
  e.add(nm, hp->size() * n, [=](u64 i, mc::Case& c) {
    size_t s = (*hp)[i / n].first, h = (*hp)[i / n].second, q = i % n;
    unsigned var = unsigned(mc::mix(i, 8) & 255);
    Loop a = sp->real(x->polys[s]), b = sp->real(x->polys[h]), d = sp->real(x->polys[q]);
    Edges ed;
    ed.add(a);
    ed.add(b);
    ed.add(d);
    a = variant(a, var);
    b = variant(b, var >> 4);
    c.input(show(a) + " hole " + show(b) + " ; " + show(d));
    PH5 H = withHoles<PH5, PD5>(a, {b});
    Mask ma = x->masks[s] & ~x->masks[h], mb = x->masks[q];
    PS5 A, B;
    A.insert(H);
    B.insert(mkpoly<PD5>(d));
    int o = int(mc::mix(i, 3) % 4);
    chk(*sp, opl(o, A, B), opm(o, ma, mb), &ed, c, NM[o]);
    chk(*sp, opl(o, B, H), opm(o, mb, ma), &ed, c, std::string(NM[o]) + " polygon(h) last");
    B.insert(H, true);
    chk(*sp, B, mb & ~ma, &ed, c, "insert(polygon(h), hole)");
    c.step(3);
    c.nontrivial(i);
  });
}
// crossings between grid points: lattice spacing odd
void offgrid(mc::Engine& e, const std::string& nm, CP5 x, const Emb& em, int op0, int op1) {
  SP sp = std::make_shared<Space>(x->A, em, 1);
  size_t n = x->polys.size();
  e.add(nm, n * n, [=](u64 i, mc::Case& c) {
    size_t p = i % n, q = i / n;
    Loop a = sp->real(x->polys[p]), b = sp->real(x->polys[q]);
    c.input(show(a) + " ; " + show(b));
    const Mask &ma = x->masks[p], &mb = x->masks[q];
    PS5 A, B;
    A.insert(mkpoly<PD5>(a));
    B.insert(mkpoly<PD5>(b));
    Edges ed;
    ed.add(a);
    ed.add(b);
    // unit squares in which operand edges cross at the centre
    std::set<P> bad;
    for (auto& s : ed.e)
      for (auto& t : ed.e) {
        i64 dx = s.second.x - s.first.x, dy = s.second.y - s.first.y, ex = t.second.x - t.first.x, ey = t.second.y - t.first.y;
        if (!dx || !dy || !ex || !ey) continue;
        if ((dx > 0) != (dy > 0) || (ex > 0) == (ey > 0)) continue;
        // s: y - x = k1; t: y + x = k2
        i64 k1 = s.first.y - s.first.x, k2 = t.first.y + t.first.x;
        i64 X2 = k2 - k1, Y2 = k2 + k1;
        if (X2 % 2 == 0) continue;
        if (X2 < 2 * std::min(s.first.x, s.second.x) || X2 > 2 * std::max(s.first.x, s.second.x) || X2 < 2 * std::min(t.first.x, t.second.x) || X2 > 2 * std::max(t.first.x, t.second.x)) continue;
        bad.insert(P{X2, Y2});
      }
    auto badAt = [&](const P& s) {  // sample in units of 1/mul
      for (auto& z : bad) {
        i64 dx = 2 * s.x - z.x * sp->mul, dy = 2 * s.y - z.y * sp->mul;
        if (dx < sp->mul && dx > -sp->mul && dy < sp->mul && dy > -sp->mul) return true;
      }
      return false;
    };
    for (int o = op0; o < op1; ++o) {
      static const char* NM[] = {"a|b", "a&b", "a-b", "a^b", "union of inserted", "self_intersect", "self_xor", "insert as hole"};
      PS5 r;
      Mask w;
      if (o < 4) {
        r = opl(o, A, B);
        w = opm(o, ma, mb);
      } else {
        r = A;
        r.insert(B, o == 7);
        if (o == 5) r.self_intersect();
        if (o == 6) r.self_xor();
        r.clean();
        w = o == 4 ? ma | mb : o == 5 ? ma & mb : o == 6 ? ma ^ mb : ma & ~mb;
      }
      std::vector<Poly> out = read5(r);
      angles(out, c, NM[o]);
      std::vector<int> cnt(sp->smp.size(), 0);
      for (auto& l : out) {
        checkLoop(l.shell, true, c, NM[o]);
        for (auto& h : l.holes) checkLoop(h, false, c, NM[o]);
        for (size_t f = 0; f < cnt.size(); ++f) {
          int k = wind(l.shell, sp->smp[f], sp->mul);
          for (auto& h : l.holes) k += wind(h, sp->smp[f], sp->mul);
          if (k < 0 || k > 1) c.fail("overlap", std::string(NM[o]) + ": polygon overlaps itself " + show(out));
          cnt[f] += k;
        }
      }
      for (size_t f = 0; f < cnt.size(); ++f) {
        if (cnt[f] > 1) c.fail("overlap", std::string(NM[o]) + ": pieces overlap " + show(out));
        if (cnt[f] != int(w[f]) && !badAt(sp->smp[f])) c.fail(cnt[f] ? "extra_area" : "missing_area", std::string(NM[o]) + ": wrong away from off-grid crossings near (" + std::to_string(double(sp->smp[f].x) / sp->mul) + "," + std::to_string(double(sp->smp[f].y) / sp->mul) + "): " + show(out));
      }
      if (bad.empty()) {
        if (r.has_error_data()) c.fail("error_data", "error data without off-grid crossings");
      }
      // the result is a valid operand again: read it back and repeat
      PS5 s2;
      for (auto& l : out) s2.insert(withHoles<PH5, PD5>(l.shell, l.holes));
      PS5 z = r ^ s2;
      std::vector<Poly> zo = read5(z);
      if (!zo.empty()) c.fail("reread", std::string(NM[o]) + ": result and its output differ: " + show(zo) + " output " + show(out));
      c.step(1);
    }
    c.nontrivial(i);
  });
}
}  // namespace
MC_REGISTER(e) {
  auto mk = [](int n, int m, int k, int q = 1) { return std::make_shared<Ctx5>(n, m, k, q); };
  CP5 s3 = mk(2, 2, 8), s21 = mk(2, 1, 6), t3 = mk(2, 2, 4), s32 = mk(3, 2, 5), s44 = mk(3, 3, 4);
  masksPolys(e, "regions-2x1", s21, Emb(1), true);
  masksPolys(e, "regions-2x1-swap", s21, Emb(1, -3, 1, true, false, true), true);
  masksPolys(e, "regions-2x2", t3, Emb(1, 3, -4), false);
  pairs(e, "pairs-3x3", s3, Emb(1));
  pairs(e, "pairs-4x4", s44, Emb(1, -3, -3));
  pairs(e, "pairs-hi", t3, Emb(1, HI - 4, HI - 4));
  pairs(e, "pairs-lo", t3, Emb(1, LO, LO));
  pairs(e, "pairs-mix", t3, Emb(1, LO, HI - 4));
  pairs(e, "pairs-wide", t3, Emb(1073741823, LO, LO));
  triples(e, "triples-3x3", t3, Emb(1));
  mixed(e, "mixed-3x3", s3, Emb(1, 0, -2));
  mixed(e, "mixed-4x3", s32, Emb(1, 0, -2));
  holed(e, "holed-3x3", s3, Emb(1));
  holed(e, "holed-4x4", s44, Emb(1));
  offgrid(e, "off-4x4", s44, Emb(1), 0, 8);
  offgrid(e, "off-3x3", s3, Emb(1, -1, -1), 0, 8);
  offgrid(e, "off-7x7", mk(6, 6, 6, 3), Emb(1), 0, 8);
  offgrid(e, "off-6x6", mk(5, 5, 4, 5), Emb(1), 0, 8);
  offgrid(e, "off-5x5", mk(4, 4, 3), Emb(1, -2, 0), 0, 8);
  offgrid(e, "off-hi", s3, Emb(1, HI - 2, HI - 2), 0, 8);
  offgrid(e, "off-lo", s3, Emb(1, LO, LO), 0, 8);
  if (e.thorough()) {
    CP5 s31 = mk(3, 1, 5), s43 = mk(4, 3, 4), s5 = mk(4, 4, 4), h44 = mk(3, 3, 6);
    masksPolys(e, "regions-3x1", s31, Emb(1), true);
    masksPolys(e, "regions-2x2-all", s3, Emb(1), false);
    pairs(e, "pairs-4x4-6", h44, Emb(1));
    pairs(e, "pairs-5x4", s43, Emb(3, 11, 12));
    triples(e, "triples-all", s3, Emb(1));
    offgrid(e, "off-5x5-4", s5, Emb(1), 0, 8);
  }
}
