// C14 (45-degree): every point gets exactly its set of properties.
#include "arr45.hpp"
using namespace arr;
namespace {
const i64 LO = -2147483648LL, HI = 2147483647LL;
template <class K, class Pr>
unsigned keyBits(const K& key, const std::vector<Pr>& props, mc::Case& c) {
  unsigned k = 0;
  for (auto& p : key) {
    size_t l = std::find(props.begin(), props.end(), p) - props.begin();
    if (l == props.size()) c.fail("foreign_key", "result key has a property that was never inserted");
    if (k >> l & 1) c.fail("dup_key", "property twice in a key");
    k |= 1u << l;
  }
  if (!k) c.fail("empty_key", "empty key in the result");
  return k;
}
Mask want(const std::vector<Mask>& m, unsigned k, const Mask& all) {
  Mask w = all;
  for (size_t l = 0; l < m.size(); ++l) w &= k >> l & 1 ? m[l] : ~m[l];
  return w;
}
template <class Res, class Pr>
void exact(const Space& sp, Res& res, const std::vector<Pr>& props, const std::vector<Mask>& m, const Edges* ed, mc::Case& c, const std::string& what) {
  std::vector<char> seen(size_t(1) << m.size(), 0);
  for (auto it = res.begin(); it != res.end(); ++it) {
    unsigned k = keyBits(it->first, props, c);
    seen[k] = 1;
    std::vector<Poly> o = read5(it->second);
    angles(o, c, what);
    region(sp, o, want(m, k, sp.A.all), ed, c, what + " key " + std::to_string(k));
  }
  for (unsigned k = 1; k < seen.size(); ++k)
    if (!seen[k] && want(m, k, sp.A.all).any()) c.fail("missing_key", what + ": no entry for key " + std::to_string(k));
}
// regions of arbitrary face sets
void faces(mc::Engine& e, const std::string& nm, CP5 x, const Emb& em, int L, u64 take) {
  SP sp = std::make_shared<Space>(x->A, em);
  u64 nf = x->A.face.size(), nr = u64(1) << nf, n = mc::ipow(nr, L);
  (void)take;
  e.add(nm, n, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    Edges ed;
    std::vector<Mask> m;
    bp::property_merge_45<int, int> pm;
    std::vector<int> pr = {5, -5, 0};
    pr.resize(L);
    std::string in;
    for (int l = 0; l < L; ++l) {
      unsigned b = d.take(nr);
      in += " faces " + std::to_string(b);
      m.push_back(x->bits(b));
      pm.insert(tiles(*sp, m[l], &ed), pr[l]);
    }
    c.input(in);
    std::map<std::set<int>, PS5> r;
    pm.merge(r);
    exact(*sp, r, pr, m, &ed, c, "merge");
    c.step();
    c.nontrivial(i);
  });
}
// polygons; the kinds of objects, orders and repetitions vary
template <class Pr>
Pr prop(int i);
template <>
int prop<int>(int i) { static const int v[] = {5, -7, 90}; return v[i]; }
template <>
std::string prop<std::string>(int i) { static const char* v[] = {"m", "a", "z"}; return v[i]; }
template <class Pr>
void polys(mc::Engine& e, const std::string& nm, CP5 x, const Emb& em, int L) {
  SP sp = std::make_shared<Space>(x->A, em);
  size_t n = x->polys.size();
  e.add(nm, mc::ipow(n, L), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    Edges ed;
    std::vector<Mask> m;
    std::vector<Pr> pr;
    std::vector<Loop> ls;
    std::string in;
    for (int l = 0; l < L; ++l) {
      unsigned k = d.take(n);
      ls.push_back(sp->real(x->polys[k]));
      ed.add(ls.back());
      m.push_back(x->masks[k]);
      pr.push_back(prop<Pr>(l));
      in += " ; " + show(ls.back());
    }
    c.input(in);
    unsigned v = unsigned(mc::mix(i, 31));
    bp::property_merge_45<int, Pr> pm, pm2;
    for (int l = 0; l < L; ++l) {
      int q = v & 1 ? L - 1 - l : l;
      switch (v >> (3 + 2 * l) & 3) {
        case 0: pm.insert(mkpoly<PD5>(ls[q]), pr[q]); break;
        case 1: { PS5 s; s.insert(mkpoly<PD5>(ls[q])); s.insert(mkpoly<PD5>(ls[q])); pm.insert(s, pr[q]); break; }
        case 2: pm.insert(mkpoly<PH5>(ls[q]), pr[q]); pm.insert(mkpoly<PD5>(ls[q]), pr[q]); break;
        default: { PS5 s; s.insert(mkpoly<PD5>(ls[q])); s.clean(); pm.insert(s, pr[q]); }
      }
    }
    std::map<std::set<Pr>, PS5> r;
    switch (v >> 12 & 3) {
      case 0: {
        std::map<std::vector<Pr>, PS5> r2;
        pm.merge(r2);
        exact(*sp, r2, pr, m, &ed, c, "merge into vector keys");
        break;
      }
      case 1:
        pm.merge(r);
        exact(*sp, r, pr, m, &ed, c, "merge");
        r.clear();
        pm.merge(r);
        exact(*sp, r, pr, m, &ed, c, "second merge");
        break;
      case 2: {
        // the second property also covers the first polygon, inserted after a merge
        pm.merge(r);
        pm2 = pm;
        pm2.insert(mkpoly<PD5>(ls[0]), pr[1]);
        r.clear();
        pm2.merge(r);
        std::vector<Mask> m2 = m;
        m2[1] |= m2[0];
        exact(*sp, r, pr, m2, &ed, c, "merge, insert, merge");
        break;
      }
      default: {
        bp::property_merge_45<int, Pr> p3(pm);
        PS5 h;
        h.insert(mkpoly<PD5>(ls[0]));
        h.insert(mkpoly<PD5>(ls[1]), true);  // negative counts outside the first
        p3.insert(h, pr[1]);
        p3.merge(r);
        std::vector<Mask> m2 = m;
        m2[1] |= m2[0] & ~m2[1];
        exact(*sp, r, pr, m2, &ed, c, "set with a pending hole");
      }
    }
    c.step();
    c.nontrivial(i);
  });
}
// crossings that are not grid points: tolerance of the unit square around a
// crossing, for keys whose exact region reaches it
// lab[i]: label of the i-th polygon
void offgrid(mc::Engine& e, const std::string& nm, CP5 x, const Emb& em, std::vector<int> lab) {
  const int N = int(lab.size()), L = 1 + *std::max_element(lab.begin(), lab.end());
  SP sp = std::make_shared<Space>(x->A, em, 1);
  size_t n = x->polys.size();
  auto vid = std::make_shared<std::map<P, int>>();
  for (size_t v = 0; v < x->A.vert.size(); ++v) (*vid)[sp->e.lin(x->A.vert[v].x, x->A.vert[v].y, x->A.S)] = int(v);
  e.add(nm, mc::ipow(n, N), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    Edges ed;
    std::vector<Mask> m;
    std::vector<int> pr = {3, 1, 2};
    pr.resize(L);
    bp::property_merge_45<int, int> pm;
    std::string in;
    m.resize(L);
    for (int l = 0; l < N; ++l) {
      unsigned k = d.take(n);
      Loop a = sp->real(x->polys[k]);
      if (area2(a) < 0) std::reverse(a.begin(), a.end());
      ed.add(a);
      m[lab[l]] |= x->masks[k];
      pm.insert(mkpoly<PD5>(a), pr[lab[l]]);
      in += " ; " + show(a);
    }
    c.input(in);
    std::set<P> bad;  // doubled
    for (auto& s : ed.e)
      for (auto& t : ed.e) {
        i64 dx = s.second.x - s.first.x, dy = s.second.y - s.first.y, ex = t.second.x - t.first.x, ey = t.second.y - t.first.y;
        if (!dx || !dy || !ex || !ey) continue;
        if ((dx > 0) != (dy > 0) || (ex > 0) == (ey > 0)) continue;
        i64 k1 = s.first.y - s.first.x, k2 = t.first.y + t.first.x;
        i64 X2 = k2 - k1, Y2 = k2 + k1;
        if (X2 % 2 == 0) continue;
        if (X2 < 2 * std::min(s.first.x, s.second.x) || X2 > 2 * std::max(s.first.x, s.second.x) || X2 < 2 * std::min(t.first.x, t.second.x) || X2 > 2 * std::max(t.first.x, t.second.x)) continue;
        bad.insert(P{X2, Y2});
      }
    std::map<std::set<int>, PS5> r;
    pm.merge(r);
    std::vector<int> tot(sp->smp.size(), 0);
    std::vector<char> seen(size_t(1) << L, 0);
    auto one = [&](unsigned k, const std::vector<Poly>& o) {
      Mask w = want(m, k, x->A.all);
      auto cl = x->A.closure(w);
      std::vector<P> mine;
      for (auto& z : bad) {
        auto it = vid->find(P{z.x * x->A.S / 2, z.y * x->A.S / 2});
        if (it == vid->end()) c.fail("harness", "crossing not in the arrangement");
        if (cl[it->second]) mine.push_back(z);
      }
      auto okAt = [&](const P& s) {
        for (auto& z : mine) {
          i64 dx = 2 * s.x - z.x * sp->mul, dy = 2 * s.y - z.y * sp->mul;
          if (dx < sp->mul && dx > -sp->mul && dy < sp->mul && dy > -sp->mul) return true;
        }
        return false;
      };
      angles(o, c, "merge");
      for (size_t f = 0; f < sp->smp.size(); ++f) {
        int q = 0;
        for (auto& l : o) {
          q += wind(l.shell, sp->smp[f], sp->mul);
          for (auto& h : l.holes) q += wind(h, sp->smp[f], sp->mul);
        }
        if (q < 0 || q > 1) c.fail("overlap", "key " + std::to_string(k) + " covers a point " + std::to_string(q) + " times: " + show(o));
        tot[f] += q;
        if (q != int(w[f]) && !okAt(sp->smp[f])) c.fail(q ? "extra" : "missing", "key " + std::to_string(k) + " wrong away from its off-grid crossings near (" + std::to_string(double(sp->smp[f].x) / sp->mul) + "," + std::to_string(double(sp->smp[f].y) / sp->mul) + "): " + show(o));
      }
    };
    for (auto& kv : r) {
      unsigned k = keyBits(kv.first, pr, c);
      seen[k] = 1;
      one(k, read5(kv.second));
    }
    for (unsigned k = 1; k < seen.size(); ++k)
      if (!seen[k]) one(k, std::vector<Poly>());
    for (size_t f = 0; f < tot.size(); ++f)
      if (tot[f] > 1) c.fail("not_disjoint", "two keys cover a point near (" + std::to_string(double(sp->smp[f].x) / sp->mul) + "," + std::to_string(double(sp->smp[f].y) / sp->mul) + ")");
    c.step();
    c.nontrivial(i);
  });
}
}  // namespace
MC_REGISTER(e) {
  auto mk = [](int n, int m, int k, int q = 1) { return std::make_shared<Ctx5>(n, m, k, q); };
  CP5 s3 = mk(2, 2, 8), s21 = mk(2, 1, 6), s11 = mk(1, 1, 4), t3 = mk(2, 2, 4), s44 = mk(3, 3, 4), tri = mk(2, 2, 3), o44 = mk(3, 3, 3);
  faces(e, "45-faces-1x1", s11, Emb(1, 1, 1), 3, 0);
  faces(e, "45-faces-2x1", s21, Emb(1), 2, 0);
  polys<int>(e, "45-pairs-3x3", s3, Emb(1, -2, -2), 2);
  polys<std::string>(e, "45-pairs-4x4", s44, Emb(1), 2);
  polys<int>(e, "45-triples-3x3", t3, Emb(2, 7, 7), 3);
  polys<int>(e, "45-pairs-hi", t3, Emb(1, HI - 4, HI - 4), 2);
  polys<int>(e, "45-pairs-lo", t3, Emb(1, LO, LO), 2);
  polys<int>(e, "45-pairs-wide", t3, Emb(1073741823, LO, LO), 2);
  offgrid(e, "45-off-4x4", s44, Emb(1), {0, 1});
  offgrid(e, "45-off-3x3", t3, Emb(1, -1, -1), {0, 1, 2});
  offgrid(e, "45-off-4x4-tri", o44, Emb(1, -1, -1), {0, 1});
  offgrid(e, "45-off-3x3-same", t3, Emb(1), {1, 1, 0});
  offgrid(e, "45-off-hi", s3, Emb(1, HI - 2, HI - 2), {0, 1});
  offgrid(e, "45-off-lo", s3, Emb(1, LO, LO), {0, 1});
  if (e.thorough()) {
    polys<int>(e, "45-triples-all", s3, Emb(1), 3);
    offgrid(e, "45-off-4x4-triples", o44, Emb(1), {0, 1, 2});
    offgrid(e, "45-off-3x3-triples", s3, Emb(1), {0, 1, 2});
    offgrid(e, "45-off-5x5", mk(4, 4, 4), Emb(1), {0, 1});
  }
}
