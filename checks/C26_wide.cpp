// C26, skewed lattices with coordinates up to 2^29: the model runs in
// quadruple precision.
#define VOR_QUAD
#define vor vorq
#include "vorcmp.hpp"
#include "vorspace.hpp"
using namespace vorq;
namespace {
void body(const std::vector<Obj>& in, mc::Case& c) {
  std::string desc = str(in);
  c.input(desc);
  Model m;
  m.build(in, 65536);
  Builder b;
  feed(b, in);
  Diagram d;
  b.construct(&d);
  std::vector<int> cell = cells(d, in, m.st, c, desc);
  vertices(d, m, cell, c, desc);
  if (!m.vert.empty()) c.nontrivial(hashObj(in));
}
}
MC_REGISTER(e) {
  for (int k = 5; k < 7; ++k) {
    const Emb* E = EMB + k;
    addSpace(e, "q", 4, 4, 1, 0, E, body);
    addSpace(e, "q", 4, 4, 1, 1, E, body);
    addSpace(e, "q", 3, 3, 2, 0, E, body);
    addSpace(e, "q", 3, 3, 1, 2, E, body);
    addSpace(e, "q", 3, 3, 3, 0, E, body);
    addSpace(e, "q", 4, 4, 2, 0, E, body);
    addSpace(e, "q", 4, 4, 1, 2, E, body);
    if (!e.thorough()) continue;
    addSpace(e, "q", 4, 4, 3, 0, E, body);
    addSpace(e, "q", 4, 4, 2, 1, E, body);
    addSpace(e, "q", 4, 3, 2, 1, E, body);
    addSpace(e, "q", 3, 3, 4, 0, E, body);
  }
}
