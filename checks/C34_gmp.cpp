// C34: with the exact arithmetic override the arbitrary-angle engine is robust
// over the whole coordinate range.
#include <boost/polygon/polygon.hpp>
#include <boost/polygon/gmp_override.hpp>
#include "jit.hpp"
#include "rsz.hpp"
using namespace jit;
MC_REGISTER(e) {
  auto mk = [](int n, int m, int k) { return std::make_shared<std::vector<Loop>>(simplePolys(n, m, k)); };
  LP q3 = mk(2, 2, 4), t3 = mk(2, 2, 3), t4 = mk(3, 3, 3), a3 = mk(2, 2, 8);
  pairs(e, "full-jit", q3, Lat{2, 1073741000, P{-1073741000, -1073741000}, 0}, 12);
  pairs(e, "full-skew", q3, Lat{2, 1000000000, P{-1000000000, -1000000000}, 1}, 12);
  pairs(e, "tri4-skew", t4, Lat{3, 640000000, P{-960000000, -960000000}, 1}, 12);
  pairs(e, "octo-jit", a3, Lat{2, 1073741000, P{-1073741000, -1073741000}, 0}, 12);
  triples(e, "triples-jit", t3, Lat{2, 1073741000, P{-1073741000, -1073741000}, 0}, 10);
  triples(e, "triples-skew", t3, Lat{2, 1000000000, P{-1000000000, -1000000000}, 1}, 10);
  // many almost coincident edges: sums with polygons approximating a circle
  static Arr A(2, 2, false);
  RP small = std::make_shared<std::vector<Region>>(regions(A, 4, 3));
  std::vector<Cfg> arc;
  for (i64 d : {60000000, -60000000, 777, -777})
    for (int n : {5, 8}) arc.push_back(Cfg{500000000, {-500000000, -499999999}, d, n});
  family(e, "arcs-5e8", small, arc);
}
