// C15 (45-degree and arbitrary angles): connectivity extraction reports
// exactly the pairs of nodes whose closed regions meet.
#include "arr45.hpp"
using namespace arr;
namespace {
const i64 LO = -2147483648LL, HI = 2147483647LL;
struct Ctx {
  Arr A;
  std::vector<Loop> polys;
  std::vector<Mask> masks;
  std::vector<Arr::VMask> cl;
  Ctx(int n, int m, int k, bool arr45, bool poly45) : A(n, m, arr45), polys(simplePolys(n, m, k, poly45)) {
    if (int(A.vert.size()) > Arr::MAXV) { fprintf(stderr, "too many vertices\n"); abort(); }
    for (auto& l : polys) {
      masks.push_back(A.mask(l));
      cl.push_back(A.closure(masks.back()));
    }
  }
};
typedef std::shared_ptr<Ctx> CP;
// faces sharing an edge
typedef std::vector<std::vector<int>> Nb;
Nb neighbours(const Arr& A) {
  std::map<std::pair<int, int>, std::vector<int>> m;
  for (size_t f = 0; f < A.fv.size(); ++f)
    for (size_t k = 0; k < A.fv[f].size(); ++k) {
      int a = A.fv[f][k], b = A.fv[f][(k + 1) % A.fv[f].size()];
      m[std::make_pair(std::min(a, b), std::max(a, b))].push_back(int(f));
    }
  Nb r(A.fv.size());
  for (auto& q : m)
    for (int f : q.second)
      for (int g : q.second)
        if (f != g) r[f].push_back(g);
  return r;
}
// the polygons of `m` (pieces with connected interior) that meet `t`
Mask touching(const Arr& A, const Nb& nb, Mask m, const Arr::VMask& t) {
  Mask out;
  for (size_t f = 0; f < nb.size(); ++f)
    if (m[f]) {
      Mask k;
      std::vector<int> st(1, int(f));
      m[f] = 0;
      while (!st.empty()) {
        int g = st.back();
        st.pop_back();
        k[g] = 1;
        for (int h : nb[g])
          if (m[h]) {
            m[h] = 0;
            st.push_back(h);
          }
      }
      if ((A.closure(k) & t).any()) out |= k;
    }
  return out;
}
struct K45 {
  typedef PS5 S;
  typedef PD5 D;
  typedef PH5 H;
  typedef bp::connectivity_extraction_45<int> CE;
  static const bool is45 = true;
};
struct KA {
  typedef PS S;
  typedef PD D;
  typedef PH H;
  typedef bp::connectivity_extraction<int> CE;
  static const bool is45 = false;
};
typedef std::vector<std::vector<char>> Adj;
template <class G>
void same(G& g, const Adj& want, mc::Case& c, const std::string& what) {
  for (size_t i = 0; i < want.size(); ++i) {
    std::set<int> w;
    for (size_t j = 0; j < want.size(); ++j)
      if (i != j && want[i][j] == 1) w.insert(int(j));
    const std::set<int>& got = g[int(i)];
    bool extra = false, miss = false;
    for (int k : w) miss |= !got.count(k);
    for (int k : got) extra |= k < 0 || k >= int(want.size()) || k == int(i) || !want[i][k];
    if (!extra && !miss) continue;
    std::string s;
    for (int k : got) s += " " + std::to_string(k);
    s += " want";
    for (int k : w) s += " " + std::to_string(k);
    c.fail(extra ? "extra_edge" : "missing_edge", what + ": neighbours of node " + std::to_string(i) + ":" + s);
  }
}
Adj adj(const std::vector<Arr::VMask>& v) {
  Adj a(v.size(), std::vector<char>(v.size(), 0));
  for (size_t i = 0; i < v.size(); ++i)
    for (size_t j = 0; j < v.size(); ++j) a[i][j] = i != j && (v[i] & v[j]).any();
  return a;
}
Loop variant(const Loop& l, unsigned v) {
  Loop r = l;
  std::rotate(r.begin(), r.begin() + v / 4 % r.size(), r.end());
  if (v & 1) std::reverse(r.begin(), r.end());
  if (v & 2) r.push_back(r.front());
  return r;
}
template <class K>
unsigned put(typename K::CE& ce, const Loop& l, unsigned v) {
  Loop q = variant(l, v >> 2);
  switch (v & 3) {
    case 0: return ce.insert(mkpoly<typename K::D>(q));
    case 1: return ce.insert(mkpoly<typename K::H>(q));
    case 2: {
      typename K::S s;
      s.insert(mkpoly<typename K::D>(q));
      s.insert(mkpoly<typename K::D>(l));
      return ce.insert(s);
    }
    default: {
      typename K::S s;
      s.insert(mkpoly<typename K::D>(q));
      s.clean();
      return ce.insert(s);
    }
  }
}
// distance of two loops' boundaries, for near misses under snapping
long double dist(const Loop& a, const Loop& b) {
  long double m = 1e30L;
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < b.size(); ++j) {
      m = std::min(m, distSeg(D2{(long double)a[i].x, (long double)a[i].y}, b[j], b[(j + 1) % b.size()]));
      m = std::min(m, distSeg(D2{(long double)b[j].x, (long double)b[j].y}, a[i], a[(i + 1) % a.size()]));
    }
  return m;
}
// L polygons, all tuples; unit 0: every crossing is a grid point
template <class K>
void polys(mc::Engine& e, const std::string& nm, CP x, const Emb& em, int L, i64 unit = 0) {
  std::shared_ptr<Space> sp = std::make_shared<Space>(x->A, em, unit);
  size_t n = x->polys.size();
  e.add(nm, mc::ipow(n, L), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    std::vector<Arr::VMask> m;
    std::vector<Loop> ls;
    std::string in;
    unsigned v = unsigned(mc::mix(i, 31));
    for (int l = 0; l < L; ++l) {
      unsigned k = d.take(n);
      ls.push_back(sp->real(x->polys[k]));
      m.push_back(x->cl[k]);
      in += " ; " + show(ls[l]);
    }
    c.input(in);
    typename K::CE ce;
    for (int l = 0; l < L; ++l)
      if (put<K>(ce, ls[l], v >> (8 * l) & 255) != unsigned(l)) c.fail("node_id", "wrong id");
    Adj w = adj(m);
    if (unit && !K::is45 && L > 2)
      for (int a = 0; a < L; ++a)
        for (int b = 0; b < L; ++b)
          if (a != b && !w[a][b] && dist(ls[a], ls[b]) < 2) w[a][b] = 2;
    std::vector<std::set<int>> g(L);
    ce.extract(g);
    same(g, w, c, "extract");
    c.step();
    if ((v >> 24) % 3 == 0) {
      std::map<int, std::set<int>> g2;
      typename K::CE c2(ce), c3;
      c3.insert(mkpoly<typename K::D>(ls[0]));
      c3 = c2;
      c3.extract(g2);
      same(g2, w, c, "second extraction, on a copy, into a map");
      // the first polygon once more
      if (put<K>(c3, ls[0], v >> 26) != unsigned(L)) c.fail("node_id", "wrong id after extraction");
      std::vector<std::set<int>> g3(L + 1);
      c3.extract(g3);
      m.push_back(m[0]);
      Adj w3 = adj(m);
      for (int a = 0; a < L; ++a) {
        for (int b = 0; b < L; ++b)
          if (w[a][b] == 2) w3[a][b] = 2;
        if (w[a][0] == 2) w3[a][L] = w3[L][a] = 2;
      }
      same(g3, w3, c, "one more node");
      c.step(2);
    }
    c.nontrivial(i);
  });
}
// arbitrary 45-degree face sets: holes, touching corners, nesting
void faces(mc::Engine& e, const std::string& nm, CP5 x, const Emb& em, int L) {
  std::shared_ptr<Space> sp = std::make_shared<Space>(x->A, em);
  u64 nr = u64(1) << x->A.face.size();
  e.add(nm, mc::ipow(nr, L), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    std::vector<Arr::VMask> m;
    bp::connectivity_extraction_45<int> ce;
    bp::connectivity_extraction<int> ca;
    std::string in;
    for (int l = 0; l < L; ++l) {
      u64 b = d.take(nr);
      in += " faces " + std::to_string(b);
      Mask k = x->bits(b);
      m.push_back(x->A.closure(k));
      PS5 s = tiles(*sp, k);
      PS t;
      t.insert(s);
      if (ce.insert(s) != unsigned(l)) c.fail("node_id", "wrong id");
      if (ca.insert(t) != unsigned(l)) c.fail("node_id", "wrong id");
    }
    c.input(in);
    Adj w = adj(m);
    std::vector<std::set<int>> g(L), g2(L);
    ce.extract(g);
    same(g, w, c, "extract 45");
    ca.extract(g2);
    same(g2, w, c, "extract");
    c.step(2);
    c.nontrivial(i);
  });
}
// a polygon with a hole and another polygon (which may lie inside the hole)
template <class K>
void holes(mc::Engine& e, const std::string& nm, CP sh, CP x, const Emb& em) {
  std::shared_ptr<Space> sp = std::make_shared<Space>(x->A, em);
  auto v = std::make_shared<std::vector<std::pair<int, int>>>();
  for (size_t s = 0; s < sh->polys.size(); ++s)
    for (size_t h = 0; h < x->polys.size(); ++h)
      if (!(x->masks[h] & ~sh->masks[s]).any() && x->masks[h] != sh->masks[s]) {
        // the hole must not run along the shell
        bool ok = true;
        const Loop &a = sh->polys[s], &b = x->polys[h];
        for (size_t i = 0; ok && i < a.size(); ++i)
          for (size_t j = 0; ok && j < b.size(); ++j) {
            const P &p = a[i], &q = a[(i + 1) % a.size()], &r = b[j], &t = b[(j + 1) % b.size()];
            if (cross(p, q, r) == 0 && cross(p, q, t) == 0 && std::max(std::min(p, q), std::min(r, t)) < std::min(std::max(p, q), std::max(r, t))) ok = false;
          }
        if (ok) v->push_back(std::make_pair(int(s), int(h)));
      }
  size_t n = x->polys.size();
  Nb nb = neighbours(x->A);
  e.add(nm, v->size() * n, [=](u64 i, mc::Case& c) {
    auto hp = (*v)[i / n];
    size_t q = i % n;
    Loop s = sp->real(sh->polys[hp.first]), h = sp->real(x->polys[hp.second]), b = sp->real(x->polys[q]);
    c.input(show(s) + " hole " + show(h) + " ; " + show(b));
    unsigned var = unsigned(mc::mix(i, 5));
    typename K::H P = withHoles<typename K::H, typename K::D>(variant(s, var & 63), {variant(h, var >> 6 & 63)});
    typename K::CE ce;
    if (var >> 12 & 1) {
      ce.insert(P);
      put<K>(ce, b, var >> 13 & 255);
    } else {
      put<K>(ce, b, var >> 13 & 255);
      ce.insert(P);
    }
    std::vector<Arr::VMask> m = {x->A.closure(sh->masks[hp.first] & ~x->masks[hp.second]), x->cl[q]};
    std::vector<std::set<int>> g(2);
    ce.extract(g);
    same(g, adj(m), c, "with a hole");
    // interact keeps whole polygons, holes included
    typename K::S A, B;
    A.insert(P);
    B.insert(mkpoly<typename K::D>(b));
    if constexpr (K::is45) bp::interact(A, B);
    else if (var & 1) A.interact(B);
    else bp::interact(A, B);
    Edges ed;
    ed.add(s);
    ed.add(h);
    region(*sp, read(A), touching(x->A, nb, sh->masks[hp.first] & ~x->masks[hp.second], m[1]), &ed, c, "interact");
    c.step(2);
    c.nontrivial(i);
  });
}
// interact on sets of face tiles (45): whole connected polygons stay
template <class K>
void interacts(mc::Engine& e, const std::string& nm, CP x, const Emb& em) {
  std::shared_ptr<Space> sp = std::make_shared<Space>(x->A, em);
  size_t n = x->polys.size();
  e.add(nm, mc::ipow(n, 3), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    size_t k[3];
    Loop l[3];
    for (int q = 0; q < 3; ++q) {
      k[q] = d.take(n);
      l[q] = sp->real(x->polys[k[q]]);
    }
    // first two form the set; they must be apart to be two polygons
    if ((x->cl[k[0]] & x->cl[k[1]]).any() || k[0] > k[1]) return;
    c.input(show(l[0]) + " ; " + show(l[1]) + " | " + show(l[2]));
    unsigned var = unsigned(mc::mix(i, 5));
    typename K::S A, B;
    A.insert(mkpoly<typename K::D>(variant(l[0], var & 63)));
    A.insert(mkpoly<typename K::D>(variant(l[1], var >> 6 & 63)));
    if (var >> 13 & 1) A.clean();
    B.insert(mkpoly<typename K::D>(variant(l[2], var >> 14 & 63)));
    if constexpr (K::is45) bp::interact(A, B);
    else if (var >> 12 & 1) A.interact(B);
    else bp::interact(A, B);
    Mask want;
    Edges ed;
    for (int q = 0; q < 2; ++q) {
      ed.add(l[q]);
      if ((x->cl[k[q]] & x->cl[k[2]]).any()) want |= x->masks[k[q]];
    }
    region(*sp, read(A), want, &ed, c, "interact");
    region(*sp, read(B), x->masks[k[2]], 0, c, "the other operand");
    c.step();
    c.nontrivial(i);
  });
}
}  // namespace
MC_REGISTER(e) {
  auto mk = [](int n, int m, int k, bool a, bool p) { return std::make_shared<Ctx>(n, m, k, a, p); };
  CP s3 = mk(2, 2, 8, true, true), t3 = mk(2, 2, 4, true, true), o3 = mk(2, 2, 3, true, true), o44 = mk(3, 3, 3, true, true), q44 = mk(3, 3, 4, true, true);
  polys<K45>(e, "45-pairs", s3, Emb(1), 2);
  polys<K45>(e, "45-pairs-4x4", q44, Emb(1, -7, 3), 2, 1);
  polys<K45>(e, "45-pairs-hi", t3, Emb(1, HI - 4, HI - 4), 2);
  polys<K45>(e, "45-pairs-lo", t3, Emb(1, LO, LO), 2);
  polys<K45>(e, "45-pairs-wide", t3, Emb(1, LO, LO), 2, 1 << 30);
  polys<K45>(e, "45-triples", t3, Emb(1), 3, 1);
  faces(e, "45-faces-1x1", std::make_shared<Ctx5>(1, 1, 4), Emb(1), 4);
  faces(e, "45-faces-2x1", std::make_shared<Ctx5>(2, 1, 4), Emb(1, -5, -5), 2);
  holes<K45>(e, "45-holes", mk(4, 3, 4, true, true), mk(4, 3, 3, true, true), Emb(1));
  interacts<K45>(e, "45-interact", o44, Emb(1));
  CP a3 = mk(2, 2, 8, false, false), b3 = mk(2, 2, 4, false, false), c3 = mk(2, 2, 3, false, false), c4 = mk(3, 3, 3, false, false);
  polys<KA>(e, "pairs", a3, Emb(1), 2);
  polys<KA>(e, "pairs-4x4", c4, Emb(1, -7, 3), 2, 7);
  polys<KA>(e, "pairs-hi", b3, Emb(1, HI - 200, HI - 200), 2, 100);
  polys<KA>(e, "pairs-lo", b3, Emb(1, LO, LO), 2, 97);
  polys<KA>(e, "pairs-7", b3, Emb(1), 2, 7);
  polys<KA>(e, "triples", c3, Emb(1), 3);
  polys<KA>(e, "triples-31", c3, Emb(1), 3, 31);
  polys<KA>(e, "triples-97", c3, Emb(1, -97, -97), 3, 97);
  holes<KA>(e, "holes", mk(3, 3, 4, false, true), c4, Emb(1));
  if (e.thorough()) {
    polys<K45>(e, "45-triples-8", s3, Emb(1), 3, 1);
    polys<KA>(e, "triples-quads", b3, Emb(1, -50, -50), 3, 50);
    polys<KA>(e, "triples-quads-97", b3, Emb(1), 3, 97);
    interacts<KA>(e, "interact", c4, Emb(1));
    faces(e, "45-faces-2x1-3", std::make_shared<Ctx5>(2, 1, 4), Emb(1), 3);
  }
}
