// C14 (arbitrary angles): every point gets exactly its set of properties.
#include "arrlib.hpp"
using namespace arr;
using namespace boost::polygon::operators;
namespace {
const i64 LO = -2147483648LL, HI = 2147483647LL;
typedef std::shared_ptr<Space> SP;
struct Ctx {
  Arr A;
  std::vector<Loop> polys;
  std::vector<Mask> masks;
  Ctx(int n, int m, int k, bool o45 = false) : A(n, m, false), polys(simplePolys(n, m, k, o45)) {
    for (auto& l : polys) masks.push_back(A.mask(l));
  }
};
typedef std::shared_ptr<Ctx> CP;
template <class K, class Pr>
unsigned keyBits(const K& key, const std::vector<Pr>& props, mc::Case& c) {
  unsigned k = 0;
  for (auto& p : key) {
    size_t l = std::find(props.begin(), props.end(), p) - props.begin();
    if (l == props.size()) c.fail("foreign_key", "result key has a property that was never inserted");
    if (k >> l & 1) c.fail("dup_key", "property twice in a key");
    k |= 1u << l;
  }
  if (!k) c.fail("empty_key", "empty key in the result");
  return k;
}
Mask want(const std::vector<Mask>& m, unsigned k, const Mask& all) {
  Mask w = all;
  for (size_t l = 0; l < m.size(); ++l) w &= k >> l & 1 ? m[l] : ~m[l];
  return w;
}
template <class Res, class Pr>
void exact(const Space& sp, const Res& res, const std::vector<Pr>& props, const std::vector<Mask>& m, const Edges* ed, mc::Case& c, const std::string& what) {
  std::vector<char> seen(size_t(1) << m.size(), 0);
  for (auto it = res.begin(); it != res.end(); ++it) {
    unsigned k = keyBits(it->first, props, c);
    seen[k] = 1;
    region(sp, read(it->second), want(m, k, sp.A.all), ed, c, what + " key " + std::to_string(k));
  }
  for (unsigned k = 1; k < seen.size(); ++k)
    if (!seen[k] && want(m, k, sp.A.all).any()) c.fail("missing_key", what + ": no entry for key " + std::to_string(k));
}
Loop variant(const Loop& l, unsigned v) {
  Loop r = l;
  std::rotate(r.begin(), r.begin() + v / 4 % r.size(), r.end());
  if (v & 1) std::reverse(r.begin(), r.end());
  if (v & 2) r.push_back(r.front());
  return r;
}
template <class Pr>
Pr prop(int i);
template <>
int prop<int>(int i) { static const int v[] = {5, -7, 90}; return v[i]; }
template <>
std::string prop<std::string>(int i) { static const char* v[] = {"m", "a", "z"}; return v[i]; }

template <class Pr>
void polys(mc::Engine& e, const std::string& nm, CP x, const Emb& em, int L) {
  SP sp = std::make_shared<Space>(x->A, em);
  size_t n = x->polys.size();
  e.add(nm, mc::ipow(n, L), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    Edges ed;
    std::vector<Mask> m;
    std::vector<Pr> pr;
    std::vector<Loop> ls;
    std::string in;
    unsigned v = unsigned(mc::mix(i, 31));
    for (int l = 0; l < L; ++l) {
      unsigned k = d.take(n);
      Loop q = sp->real(x->polys[k]);
      ed.add(q);
      ls.push_back(variant(q, v >> (8 * l) & 255));
      m.push_back(x->masks[k]);
      pr.push_back(prop<Pr>(l));
      in += " ; " + show(ls.back());
    }
    c.input(in);
    bp::property_merge<int, Pr> pm;
    for (int l = 0; l < L; ++l) {
      int q = v & 1 ? L - 1 - l : l;
      switch (v >> (3 + 2 * l) & 3) {
        case 0: case 1: pm.insert(poly(ls[q]), pr[q]); break;
        case 2: pm.insert(mkpoly<PH>(ls[q]), pr[q]); pm.insert(poly(ls[q]), pr[q]); break;
        default: pm.insert(mkpoly<PH>(ls[q]), pr[q]);
      }
    }
    std::map<std::set<Pr>, PS> r;
    switch (v >> 25 & 3) {
      case 0: {
        bp::property_merge<int, Pr, std::vector<Pr>> pv;
        for (int l = 0; l < L; ++l) pv.insert(poly(ls[l]), pr[l]);
        std::map<std::vector<Pr>, PS> r2;
        pv.merge(r2);
        exact(*sp, r2, pr, m, &ed, c, "merge into vector keys");
        break;
      }
      case 1: {
        pm.merge(r);
        exact(*sp, r, pr, m, &ed, c, "merge");
        r.clear();
        bp::property_merge<int, Pr> p2(pm);
        p2.merge(r);
        exact(*sp, r, pr, m, &ed, c, "second merge, on a copy");
        // the results are sets like any other
        PS all, both;
        for (auto& kv : r) {
          all += kv.second;
          if (kv.first.size() == size_t(L)) both = kv.second;
        }
        Mask u, w = x->A.all;
        for (auto& q : m) {
          u |= q;
          w &= q;
        }
        region(*sp, read(all), u, &ed, c, "union of the results");
        region(*sp, read(PS(all - both)), u & ~w, &ed, c, "union minus the common part");
        break;
      }
      case 2: {
        pm.merge(r);
        bp::property_merge<int, Pr> p2;
        p2 = pm;
        p2.insert(poly(ls[0]), pr[1]);
        r.clear();
        p2.merge(r);
        std::vector<Mask> m2 = m;
        m2[1] |= m2[0];
        exact(*sp, r, pr, m2, &ed, c, "merge, insert, merge");
        p2.clear();
        r.clear();
        p2.insert(poly(ls[1]), pr[0]);
        p2.merge(r);
        std::vector<Mask> m3(L);
        m3[0] = m[1];
        exact(*sp, r, pr, m3, &ed, c, "after clear");
        break;
      }
      default:
        pm.merge(r);
        exact(*sp, r, pr, m, &ed, c, "merge");
    }
    c.step();
    c.nontrivial(i);
  });
}
// polygons with holes, rectangles, 45- and 90-degree objects
void holes(mc::Engine& e, const std::string& nm, CP sh, CP x, const Emb& em) {
  SP sp = std::make_shared<Space>(x->A, em);
  auto v = std::make_shared<std::vector<std::pair<int, int>>>();
  for (size_t s = 0; s < sh->polys.size(); ++s)
    for (size_t h = 0; h < x->polys.size(); ++h) {
      if ((x->masks[h] & ~sh->masks[s]).any() || x->masks[h] == sh->masks[s]) continue;
      bool ok = true;
      const Loop &a = sh->polys[s], &b = x->polys[h];
      for (size_t i = 0; ok && i < a.size(); ++i)
        for (size_t j = 0; ok && j < b.size(); ++j) {
          const P &p = a[i], &q = a[(i + 1) % a.size()], &r = b[j], &t = b[(j + 1) % b.size()];
          if (cross(p, q, r) == 0 && cross(p, q, t) == 0 && std::max(std::min(p, q), std::min(r, t)) < std::min(std::max(p, q), std::max(r, t))) ok = false;
        }
      if (ok) v->push_back(std::make_pair(int(s), int(h)));
    }
  size_t n = x->polys.size();
  e.add(nm, v->size() * n, [=](u64 i, mc::Case& c) {
    auto hp = (*v)[i / n];
    size_t q = i % n;
    unsigned var = unsigned(mc::mix(i, 3));
    Loop s = sp->real(sh->polys[hp.first]), h = sp->real(x->polys[hp.second]), b = sp->real(x->polys[q]);
    Edges ed;
    ed.add(s);
    ed.add(h);
    ed.add(b);
    s = variant(s, var & 63);
    h = variant(h, var >> 6 & 63);
    b = variant(b, var >> 12 & 63);
    c.input(show(s) + " hole " + show(h) + " ; " + show(b));
    std::vector<int> pr = {0, 1};
    std::vector<Mask> m = {sh->masks[hp.first] & ~x->masks[hp.second], x->masks[q]};
    bp::property_merge<int, int> pm;
    std::map<std::set<int>, PS> r;
    if (i & 1) {
      pm.insert(withHoles<PH, PD>(s, {h}), 0);
      pm.insert(poly(b), 1);
    } else {
      pm.insert(poly(b), 1);
      pm.insert(poly(s), 0);
      pm.insert(poly(h), 0, true);
    }
    pm.merge(r);
    exact(*sp, r, pr, m, &ed, c, "with a hole");
    // fill the hole again
    pm.insert(poly(h), 0);
    r.clear();
    pm.merge(r);
    m[0] = sh->masks[hp.first];
    exact(*sp, r, pr, m, &ed, c, "hole filled");
    c.step(2);
    c.nontrivial(i);
  });
}
void types(mc::Engine& e, const std::string& nm, CP x, CP x45, const Emb& em) {
  SP sp = std::make_shared<Space>(x->A, em);
  size_t n = x->polys.size(), n5 = x45->polys.size();
  auto r4 = std::make_shared<std::vector<Loop>>();
  for (int a = 0; a <= x->A.n; ++a)
    for (int b = a + 1; b <= x->A.n; ++b)
      for (int p = 0; p <= x->A.m; ++p)
        for (int q = p + 1; q <= x->A.m; ++q) r4->push_back(Loop{P{a, p}, P{b, p}, P{b, q}, P{a, q}});
  size_t nr = r4->size();
  e.add(nm, n * nr * n5, [=](u64 i, mc::Case& c) {
    size_t p = i % n, q = i / n % nr, s = i / n / nr;
    Loop a = sp->real(x->polys[p]), b = sp->real((*r4)[q]), d = sp->real(x45->polys[s]);
    c.input(show(a) + " ; rectangle " + show(b) + " ; 45 " + show(d));
    Edges ed;
    ed.add(a);
    ed.add(b);
    ed.add(d);
    std::vector<int> pr = {2, 0, 1};
    std::vector<Mask> m = {x->masks[p], x->A.mask((*r4)[q]), x45->masks[s]};
    bp::property_merge<int, int> pm;
    PD rb = poly(b);
    bp::rectangle_data<int> R;
    bp::extents(R, rb);
    pm.insert(poly(a), 2);
    if (i & 1) pm.insert(R, 0);
    else {
      bp::polygon_90_data<int> t;
      std::vector<Pt> v = pts(b);
      bp::set_points(t, v.begin(), v.end());
      pm.insert(bp::view_as<bp::polygon_concept>(t), 0);
    }
    if (i & 2) { auto t = mkpoly<bp::polygon_45_data<int>>(d); pm.insert(bp::view_as<bp::polygon_concept>(t), 1); }
    else pm.insert(mkpoly<PH>(d), 1);
    std::map<std::set<int>, PS> r;
    pm.merge(r);
    exact(*sp, r, pr, m, &ed, c, "mixed types");
    c.step();
    c.nontrivial(i);
  });
}
// crossings are not grid points
void snaps(mc::Engine& e, const std::string& nm, CP x, const Emb& em, i64 unit, int L, u64 part = 1) {
  size_t n = x->polys.size();
  SP sp = std::make_shared<Space>(x->A, em, unit);
  e.add(nm, mc::ipow(n, L) / part, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    Edges ed;
    std::vector<Mask> m;
    std::vector<int> pr = {3, 1, 2};
    pr.resize(L);
    bp::property_merge<int, int> pm;
    std::string in;
    for (int l = 0; l < L; ++l) {
      unsigned k = d.take(n);
      Loop a = sp->real(x->polys[k]);
      ed.add(a);
      m.push_back(x->masks[k]);
      pm.insert(poly(a), pr[l]);
      in += " ; " + show(a);
    }
    c.input(in);
    std::map<std::set<int>, PS> r;
    pm.merge(r);
    if (i % 8 == 0) {
      // merging again, with nothing inserted, must give the same
      std::map<std::set<int>, PS> r2;
      pm.merge(r2);
      bool eq = r.size() == r2.size();
      for (auto a = r.begin(), b = r2.begin(); eq && a != r.end(); ++a, ++b) eq = a->first == b->first && show(read(a->second)) == show(read(b->second));
      if (!eq) c.fail("second_merge", "a second merge of the same data differs");
      c.step();
    }
    std::vector<char> seen(size_t(1) << L, 0), t(sp->smp.size());
    std::vector<int> tot(sp->smp.size(), 0);
    auto one = [&](unsigned k, const std::vector<Poly>& o) {
      Mask w = want(m, k, x->A.all);
      for (size_t f = 0; f < t.size(); ++f) t[f] = w[f];
      snapped(sp->smp, sp->mul, o, t, ed, 2.0, c, "key " + std::to_string(k));
      for (auto& l : o)
        for (size_t f = 0; f < t.size(); ++f) {
          tot[f] += wind(l.shell, sp->smp[f], sp->mul);
          for (auto& h : l.holes) tot[f] += wind(h, sp->smp[f], sp->mul);
        }
    };
    for (auto& kv : r) {
      unsigned k = keyBits(kv.first, pr, c);
      seen[k] = 1;
      one(k, read(kv.second));
    }
    for (unsigned k = 1; k < seen.size(); ++k)
      if (!seen[k]) one(k, std::vector<Poly>());
    for (size_t f = 0; f < tot.size(); ++f)
      if (tot[f] > 1) c.fail("not_disjoint", "two keys cover a point near (" + std::to_string(double(sp->smp[f].x) / sp->mul) + "," + std::to_string(double(sp->smp[f].y) / sp->mul) + ")");
    c.step();
    c.nontrivial(i);
  });
}
}  // namespace
MC_REGISTER(e) {
  auto mk = [](int n, int m, int k, bool o = false) { return std::make_shared<Ctx>(n, m, k, o); };
  CP all3 = mk(2, 2, 8), q3 = mk(2, 2, 4), t3 = mk(2, 2, 3), t4 = mk(3, 3, 3), f3 = mk(2, 2, 4, true);
  polys<int>(e, "pairs-3x3", all3, Emb(1), 2);
  polys<std::string>(e, "pairs-quad", q3, Emb(3, -1001, -71), 2);
  polys<int>(e, "tri-4x4", t4, Emb(1), 2);
  polys<int>(e, "triples-3x3", t3, Emb(1, -60, -60), 3);
  polys<int>(e, "pairs-hi", q3, Emb(1, HI - 120, HI - 120), 2);
  polys<int>(e, "pairs-lo", q3, Emb(1, LO, LO), 2);
  holes(e, "holes-3x3", all3, q3, Emb(1));
  types(e, "types-3x3", t3, f3, Emb(1, -7, 11));
  snaps(e, "snap-full", q3, Emb(1, LO, LO), 2147483647LL, 2);
  snaps(e, "snap-1", t3, Emb(1), 1, 3);
  snaps(e, "snap-3", all3, Emb(1, -3, -3), 3, 2);
  snaps(e, "snap-7", q3, Emb(1), 7, 2);
  snaps(e, "snap-97", q3, Emb(1, -97, -97), 97, 2);
  snaps(e, "snap4-2", t4, Emb(1), 2, 2);
  if (e.thorough()) {
    CP p432 = mk(3, 2, 4);
    polys<int>(e, "pairs-4x3", p432, Emb(1, -77, 1001), 2);
    polys<int>(e, "triples-quads", q3, Emb(1), 3);
    snaps(e, "snap-97-triples", t3, Emb(1, -97, -97), 97, 3);
    snaps(e, "snap-2-triples", q3, Emb(1), 2, 3);
    snaps(e, "snap43-5", p432, Emb(1), 5, 2);
  }
}
