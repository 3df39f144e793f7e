// C28: edges of the library diagram against the bisector gaps of all site pairs.
#include "vorcmp.hpp"
#include "vorspace.hpp"
using namespace vor;
namespace {
void body(const std::vector<Obj>& in, mc::Case& c) {
  std::string desc = str(in);
  c.input(desc);
  Model m;
  m.build(in);
  Builder b;
  feed(b, in);
  Diagram d;
  b.construct(&d);
  std::vector<int> cell = cells(d, in, m.st, c, desc);
  std::vector<int> v = vertices(d, m, cell, c, desc);
  edges(d, m, cell, v, c, desc);
  // cells without edges are exactly the sites without a bisector gap
  for (auto& x : d.cells()) {
    int s = cell[&x - &d.cells()[0]];
    bool has = false;
    for (auto& g : m.edges) has = has || g.a == s;
    c.step();
    if (has == x.is_degenerate()) c.fail("degenerate-cell", "cell of " + str(m.st[s]) + " degenerate: " + (has ? "yes, want no; " : "no, want yes; ") + desc);
  }
  if (!m.edges.empty()) c.nontrivial(hashObj(in));
}
}
MC_REGISTER(e) {
  for (int k = 0; k < (e.thorough() ? 6 : 4); ++k) {
    const Emb* E = EMB + k;
    addMasks(e, "e", 4, 4, E, body);
    addPick(e, "e", 6, 6, 4, E, body);
    addSpace(e, "e", 4, 4, 1, 0, E, body);
    addSpace(e, "e", 4, 4, 1, 1, E, body);
    addSpace(e, "e", 4, 4, 1, 2, E, body);
    addSpace(e, "e", 4, 4, 2, 0, E, body);
    addSpace(e, "e", 3, 3, 3, 0, E, body);
    addSpace(e, "e", 4, 3, 2, 1, E, body);
    addSpace(e, "e", 3, 3, 4, 0, E, body);
    addSpace(e, "e", 3, 3, 2, 2, E, body);
    if (!e.thorough()) continue;
    addMasks(e, "e", 5, 3, E, body);
    addMasks(e, "e", 5, 4, E, body);
    addPick(e, "e", 7, 7, 4, E, body);
    addPick(e, "e", 6, 6, 5, E, body);
    addSpace(e, "e", 3, 3, 1, 3, E, body);
    addSpace(e, "e", 5, 5, 2, 0, E, body);
    addSpace(e, "e", 4, 4, 3, 0, E, body);
    addSpace(e, "e", 3, 3, 5, 0, E, body);
    addSpace(e, "e", 4, 4, 2, 1, E, body);
    addSpace(e, "e", 3, 3, 3, 1, E, body);
    addSpace(e, "e", 3, 3, 4, 1, E, body);
    addSpace(e, "e", 3, 3, 2, 3, E, body);
  }
}
