// C13: resizing arbitrary-angle sets.  The expected region is the region plus
// (or minus) one primitive per edge and corner; every sample point whose whole
// rounding neighbourhood agrees is compared.
#include "rsz.hpp"
MC_REGISTER(e) {
  static Arr A(2, 2, false);
  RP full = std::make_shared<std::vector<Region>>(regions(A, e.thorough() ? 7 : 5, 4)), small = std::make_shared<std::vector<Region>>(regions(A, e.thorough() ? 5 : 4, 3));
  std::vector<Cfg> sq, arc;
  struct E {
    i64 k;
    P o;
    std::vector<i64> d;
  };
  for (E q : {E{20, {-7, 3}, {3, 8}}, E{24, {-24, -25}, {2, 25}}, E{60000, {-60000, -60000}, {7, 5000, 70000}}, E{5000000, {-5000000, -4999999}, {600000}}, E{500000000, {-500000000, -499999999}, {60000000}}})
    for (i64 d : q.d)
      for (int g : {1, -1}) {
        sq.push_back(Cfg{q.k, q.o, g * d, -1});
        if (q.k < 100000000) for (int n : e.thorough() ? std::vector<int>{0, 1, 3, 4, 5, 8, 16, 32} : std::vector<int>{0, 5, 8})
            if (n != 3 || d > 3) arc.push_back(Cfg{q.k, q.o, g * d, n});  // a triangle of radius 2 moves edges by 1: below the rounding of the result
      }
  family(e, "square_corners", full, sq);
  family(e, "arcs", small, arc);
  RP hol = std::make_shared<std::vector<Region>>(holed());
  std::vector<Cfg> hs, ha;
  for (E q : {E{20, {-7, 3}, {3, 4, 5, 6, 8, 11}}, E{60000, {-60000, -60000}, {7, 17000}}, E{100000000, {-400000000, -100000000}, {20000000, 45000000}}})
    for (i64 d : q.d)
      for (int g : {1, -1}) {
        hs.push_back(Cfg{q.k, q.o, g * d, -1});
        if (q.k < 100000000 && (e.thorough() || d == 3 || d == 8 || d == 7)) ha.push_back(Cfg{q.k, q.o, g * d, e.thorough() ? 8 : 5});
      }
  family(e, "holes/square_corners", hol, hs, false);
  family(e, "holes/arcs", hol, ha);
  parts(e);
  cells(e, "rectilinear_3x3", 3, 3, {{10, {-3, -17}}, {1000, {-1500, 5}}, {500000000, {-1000000000, -500000000}}}, {1, -1, 4, -4, 6, 13});
  if (e.thorough()) cells(e, "rectilinear_4x4", 4, 4, {{10, {-3, -17}}}, {1, -1, 4, -4, 6, 13});
}
