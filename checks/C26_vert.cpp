// C26: vertices of the library diagram against all equidistant triples.
#include "vorcmp.hpp"
#include "vorspace.hpp"
using namespace vor;
namespace {
template <class D>
void run(const std::vector<Obj>& in, const Model& m, mc::Case& c, const std::string& desc) {
  Builder b;
  feed(b, in);
  D d;
  b.construct(&d);
  std::vector<int> cell = cells(d, in, m.st, c, desc);
  std::vector<int> v = vertices(d, m, cell, c, desc);
  // the two cells of every finite edge are both nearest at its ends
  for (auto& e : d.edges()) {
    if (!e.is_finite()) continue;
    c.step();
    int s = cell[e.cell() - &d.cells()[0]];
    for (const auto* w : {e.vertex0(), e.vertex1()}) {
      const std::vector<int>& t = m.touch[v[w - &d.vertices()[0]]];
      if (!std::binary_search(t.begin(), t.end(), s)) c.fail("edge-end", "edge of " + str(m.st[s]) + " ends where that site is not nearest; " + desc);
    }
  }
}
F unitOf(const std::vector<Obj>& in) {
  ll a = 1;
  for (auto& o : in) a = std::max({a, std::abs(o.x0), std::abs(o.y0), std::abs(o.x1), std::abs(o.y1)});
  F u = 1;
  while (a > 4096) {
    a /= 2;
    u *= 2;
  }
  return u;
}
void body(const std::vector<Obj>& in, mc::Case& c) {
  std::string desc = str(in);
  c.input(desc);
  Model m;
  m.build(in, unitOf(in));
  run<Diagram>(in, m, c, desc);
  if (!m.vert.empty()) c.nontrivial(hashObj(in));
}
// Almost cocircular and almost collinear points: lattice points 2^26 apart, each
// moved by at most one unit.  Vertices closer than the merging tolerance are the
// documented exception and only counted.
void near(u64 i, int k, int np, mc::Case& c) {
  static const int D[9][2] = {{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1}, {-1, 1}, {1, -1}, {-1, -1}};
  mc::Digits dg(i);
  std::vector<Obj> in = pick(dg.take(unsigned(binom(9, k))), 3, 3, k);
  for (auto& o : in) {
    unsigned q = dg.take(np);
    o.x1 = o.x0 = (o.x0 << 26) + D[q][0];
    o.y1 = o.y0 = (o.y0 << 26) + D[q][1];
  }
  std::string desc = str(in);
  c.input(desc);
  Model m;
  m.build(in);
  for (size_t a = 0; a < m.vert.size(); ++a)
    for (size_t b = a + 1; b < m.vert.size(); ++b) {
      auto close = [](F u, F v) { return ab(u - v) <= 300 * 2.220446049250313e-16L * std::max(ab(u), ab(v)); };
      if (close(m.vert[a].x, m.vert[b].x) && close(m.vert[a].y, m.vert[b].y)) {
        c.state(hashObj(in));
        return;
      }
    }
  run<Diagram>(in, m, c, desc);
  c.nontrivial(hashObj(in));
}
}
MC_REGISTER(e) {
  e.add("near-4-d5", binom(9, 4) * mc::ipow(5, 4), [](u64 i, mc::Case& c) { near(i, 4, 5, c); });
  e.add("near-3-d9", binom(9, 3) * mc::ipow(9, 3), [](u64 i, mc::Case& c) { near(i, 3, 9, c); });
  if (e.thorough()) {
    e.add("near-4-d9", binom(9, 4) * mc::ipow(9, 4), [](u64 i, mc::Case& c) { near(i, 4, 9, c); });
    e.add("near-5-d5", binom(9, 5) * mc::ipow(5, 5), [](u64 i, mc::Case& c) { near(i, 5, 5, c); });
  }
  addMasks(e, "v", 4, 4, EMB + 7, body);
  addPick(e, "v", 6, 5, 4, EMB + 7, body);
  for (int k = 0; k < 7; ++k) {
    const Emb* E = EMB + k;
    addMasks(e, "v", 4, 4, E, body);
    addPick(e, "v", 6, 6, 4, E, body);
    addSpace(e, "v", 4, 4, 1, 0, E, body);
    addSpace(e, "v", 4, 4, 1, 1, E, body);
    addSpace(e, "v", 4, 4, 1, 2, E, body);
    addSpace(e, "v", 4, 4, 2, 0, E, body);
    addSpace(e, "v", 3, 3, 3, 0, E, body);
    addSpace(e, "v", 4, 3, 2, 1, E, body);
    addSpace(e, "v", 3, 3, 4, 0, E, body);
    if (!e.thorough()) continue;
    addMasks(e, "v", 5, 3, E, body);
    addMasks(e, "v", 5, 4, E, body);
    addPick(e, "v", 7, 7, 4, E, body);
    addPick(e, "v", 6, 6, 5, E, body);
    addSpace(e, "v", 3, 3, 1, 3, E, body);
    addSpace(e, "v", 5, 5, 2, 0, E, body);
    addSpace(e, "v", 4, 4, 3, 0, E, body);
    addSpace(e, "v", 3, 3, 5, 0, E, body);
    addSpace(e, "v", 3, 3, 6, 0, E, body);
    addSpace(e, "v", 4, 4, 2, 1, E, body);
    addSpace(e, "v", 3, 3, 2, 2, E, body);
    addSpace(e, "v", 3, 3, 3, 1, E, body);
    addSpace(e, "v", 3, 3, 4, 1, E, body);
  }
}
