// 45-degree additions to the arrangement model.
#ifndef VERIF_ARR45_HPP
#define VERIF_ARR45_HPP
#include "arrlib.hpp"
namespace arr {
typedef bp::polygon_45_data<int> PD5;
typedef bp::polygon_45_with_holes_data<int> PH5;
typedef bp::polygon_45_set_data<int> PS5;

struct Ctx5 {
  Arr A;
  std::vector<Loop> polys;
  std::vector<Mask> masks;
  // lattice n x m; polygons on the sub-lattice of spacing q
  Ctx5(int n, int m, int k, int q = 1) : A(n, m, true), polys(simplePolys(n / q, m / q, k, true)) {
    for (auto& l : polys)
      for (auto& p : l) p = P{p.x * q, p.y * q};
    for (auto& l : polys) masks.push_back(A.mask(l));
  }
  Mask bits(u64 b) const {
    Mask m;
    for (size_t f = 0; f < A.face.size(); ++f)
      if (b >> f & 1) m[f] = 1;
    return m;
  }
};
typedef std::shared_ptr<Ctx5> CP5;
typedef std::shared_ptr<Space> SP;

inline Loop faceLoop(const Space& sp, size_t f) {
  Loop l;
  for (auto& q : sp.A.face[f]) l.push_back(sp.e.lin(q.x * sp.e.k, q.y * sp.e.k, 1));
  if (area2(l) < 0) std::reverse(l.begin(), l.end());
  return l;
}
// every face inserted on its own
inline PS5 tiles(const Space& sp, const Mask& m, Edges* ed = 0) {
  PS5 s;
  for (size_t f = 0; f < sp.A.face.size(); ++f)
    if (m[f]) {
      Loop l = faceLoop(sp, f);
      s.insert(mkpoly<PD5>(l));
      if (ed) ed->add(l);
    }
  return s;
}
template <class S>
std::vector<Poly> read5(const S& s) {
  std::vector<PH5> v;
  s.get(v);
  return readH(v);
}
inline void angles(const std::vector<Poly>& out, mc::Case& c, const std::string& what) {
  auto one = [&](const Loop& l) {
    for (size_t i = 0; i < l.size(); ++i) {
      i64 dx = l[(i + 1) % l.size()].x - l[i].x, dy = l[(i + 1) % l.size()].y - l[i].y;
      if (dx && dy && dx != dy && dx != -dy) c.fail("angle", what + ": edge is not at a multiple of 45 degrees: " + show(l));
    }
  };
  for (auto& p : out) {
    one(p.shell);
    for (auto& h : p.holes) one(h);
  }
}
}  // namespace arr
#endif
