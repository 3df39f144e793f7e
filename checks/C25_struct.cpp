// C25: half-edge structure of the diagram, without any geometric oracle, over
// large spaces of site sets.
#include "vorcmp.hpp"
#include "vorspace.hpp"
using namespace vor;
namespace {
void body(const std::vector<Obj>& in, mc::Case& c) {
  std::string desc = str(in);
  c.input(desc);
  Builder b;
  feed(b, in);
  Diagram d;
  b.construct(&d);
  structure(d, c, desc);
  if (d.num_vertices()) c.nontrivial(hashObj(in));
  c.state(mc::mix(mc::mix(d.num_cells(), d.num_edges()), d.num_vertices()));
}
}
MC_REGISTER(e) {
  for (int k = 0; k < (e.thorough() ? 8 : 3); ++k) {
    const Emb* E = EMB + k;
    addMasks(e, "st", 4, 4, E, body);
    addMasks(e, "st", 5, 3, E, body);
    addPick(e, "st", 6, 6, 4, E, body);
    addSpace(e, "st", 4, 4, 1, 1, E, body);
    addSpace(e, "st", 4, 4, 1, 2, E, body);
    addSpace(e, "st", 5, 5, 2, 0, E, body);
    addSpace(e, "st", 3, 3, 3, 0, E, body);
    addSpace(e, "st", 4, 4, 3, 0, E, body);
    addSpace(e, "st", 3, 3, 4, 0, E, body);
    addSpace(e, "st", 3, 3, 5, 0, E, body);
    addSpace(e, "st", 3, 3, 2, 2, E, body);
    addSpace(e, "st", 3, 3, 3, 1, E, body);
    addSpace(e, "st", 4, 4, 2, 1, E, body);
    if (!e.thorough()) continue;
    addMasks(e, "st", 5, 4, E, body);
    addMasks(e, "st", 4, 5, E, body);
    addPick(e, "st", 7, 7, 5, E, body);
    addPick(e, "st", 6, 6, 6, E, body);
    addSpace(e, "st", 3, 3, 6, 0, E, body);
    addSpace(e, "st", 3, 3, 4, 1, E, body);
    addSpace(e, "st", 3, 3, 2, 3, E, body);
    addSpace(e, "st", 4, 3, 4, 0, E, body);
    addSpace(e, "st", 4, 4, 1, 3, E, body);
  }
}
