// C31: every sequence of builder operations up to a depth, on one builder and
// one (reused, cleared) diagram: after each construct the diagram is that of the
// sites inserted since the last clear.
#include "vorcmp.hpp"
#include "vorspace.hpp"
#include <limits>
using namespace vor;
namespace {
struct Alpha {
  const char* name;
  std::vector<Obj> obj;  // pairwise compatible
};
const std::vector<Alpha>& alphas() {
  static const std::vector<Alpha> a = {
      {"pts", {P(0, 0), P(2, 0), P(0, 2), P(2, 2)}},
      {"line", {P(0, 0), P(1, 1), P(3, 3), P(2, 2)}},
      {"vert", {P(0, 0), P(0, 3), S(0, 1, 0, 2), P(4, 1)}},
      {"tri", {S(0, 0, 3, 0), S(3, 0, 1, 2), S(1, 2, 0, 0), P(1, 1)}},
      {"star", {S(1, 1, 3, 1), S(0, 3, 1, 1), S(1, 1, 0, 0), P(3, 3)}},
      {"mix", {S(2, 0, 0, 1), P(0, 0), S(3, 3, 2, 0), P(3, 0)}},
  };
  return a;
}
// operations: 0..n-1 insert object; n construct into the cleared diagram;
// n+1 construct twice in a row (second into a fresh diagram); n+2 builder
// clear; n+3 construct, annotate colors and read back
void body(int al, int depth, u64 i, mc::Case& c) {
  const Alpha& A = alphas()[al];
  int n = int(A.obj.size());
  mc::Digits d(i);
  std::string desc;
  Builder b;
  Diagram dia;
  std::vector<Obj> in;
  std::map<u64, Model> memo;
  static std::map<u64, Model> cache;  // per worker: models by site set
  auto model = [&]() -> const Model& {
    u64 h = mc::mix(al, 7);
    for (auto& s : sites(in)) h = mc::mix(mc::mix(mc::mix(mc::mix(mc::mix(h, s.seg), u64(s.x0)), u64(s.y0)), u64(s.x1)), u64(s.y1));
    auto it = cache.find(h);
    if (it == cache.end()) {
      it = cache.insert({h, Model()}).first;
      it->second.build(in);
    }
    return it->second;
  };
  auto check = [&](const Diagram& g) {
    const Model& m = model();
    structure(g, c, desc);
    std::vector<int> cell = cells(g, in, m.st, c, desc);
    std::vector<int> v = vertices(g, m, cell, c, desc);
    edges(g, m, cell, v, c, desc);
    c.state(hashObj(in));
  };
  for (int q = 0; q < depth; ++q) {
    int op = int(d.take(n + 4));
    c.step();
    if (op < n) {
      const Obj& o = A.obj[op];
      desc += "+" + str(o) + " ";
      c.input(desc);
      size_t r = o.seg ? b.insert_segment(int(o.x0), int(o.y0), int(o.x1), int(o.y1)) : b.insert_point(int(o.x0), int(o.y0));
      if (r != in.size()) c.fail("index", "insert returned " + std::to_string(r) + "; " + desc);
      in.push_back(o);
    } else if (op == n) {
      desc += "construct ";
      c.input(desc);
      dia.clear();
      if (dia.num_cells() || dia.num_edges() || dia.num_vertices()) c.fail("clear", "diagram clear left something; " + desc);
      b.construct(&dia);
      check(dia);
    } else if (op == n + 1) {
      desc += "construct2 ";
      c.input(desc);
      Diagram x, y;
      b.construct(&x);
      check(x);
      b.construct(&y);
      check(y);
    } else if (op == n + 2) {
      desc += "clear ";
      c.input(desc);
      b.clear();
      in.clear();
    } else {
      desc += "annotate ";
      c.input(desc);
      dia.clear();
      b.construct(&dia);
      const size_t MAXC = std::numeric_limits<size_t>::max() >> 5;
      const size_t col[3] = {MAXC, 0x155, 0};
      for (int r = 0; r < 3; ++r) {
        for (auto& x : dia.cells()) x.color(col[r]);
        for (auto& x : dia.edges()) x.color(col[r] ^ 1);
        for (auto& x : dia.vertices()) x.color(col[r] ^ 2);
        for (auto& x : dia.cells())
          if (x.color() != col[r]) c.fail("color", "cell color; " + desc);
        for (auto& x : dia.edges())
          if (x.color() != (col[r] ^ 1)) c.fail("color", "edge color; " + desc);
        for (auto& x : dia.vertices())
          if (x.color() != (col[r] ^ 2)) c.fail("color", "vertex color; " + desc);
        check(dia);
      }
    }
  }
  c.nontrivial(mc::mix(i, al * 16 + depth));
}
}
MC_REGISTER(e) {
  for (int a = 0; a < int(alphas().size()); ++a) {
    int D = e.thorough() ? 7 : 6;
    for (int k = 1; k <= D; ++k)
      e.add(std::string("hist-") + alphas()[a].name + "-" + std::to_string(k), mc::ipow(8, k), [=](u64 i, mc::Case& c) { body(a, k, i, c); });
  }
}
