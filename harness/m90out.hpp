// Checks of rectilinear output pieces against a raster region.
#ifndef VERIF_M90OUT_HPP
#define VERIF_M90OUT_HPP
#include "m90.hpp"
namespace m90 {

template <class T>
long double signedArea2(const std::vector<Pt<T> >& v) {
  long double a = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    const Pt<T>&p = v[i], &q = v[(i + 1) % v.size()];
    a += (long double)p.x * q.y - (long double)q.x * p.y;
  }
  return a;
}

// positive area, axis-parallel, expected winding
template <class T>
void checkLoop(std::vector<Pt<T> > v, bool ccw, mc::Case& c, const char* what, bool needWinding) {
  if (v.size() > 1 && v.front().x == v.back().x && v.front().y == v.back().y) v.pop_back();
  if (v.size() < 4) c.fail("degenerate", std::string(what) + ": fewer than 4 vertices " + showPts(v));
  for (size_t i = 0; i < v.size(); ++i) {
    const Pt<T>&a = v[i], &b = v[(i + 1) % v.size()];
    if (a.x != b.x && a.y != b.y) c.fail("nonmanhattan", std::string(what) + ": slanted edge in " + showPts(v));
    if (a.x == b.x && a.y == b.y) c.fail("degenerate", std::string(what) + ": repeated vertex in " + showPts(v));
  }
  long double s = signedArea2(v);
  if (s == 0) c.fail("degenerate", std::string(what) + ": zero area " + showPts(v));
  if (needWinding && (s > 0) != ccw) c.fail("winding", std::string(what) + ": wrong winding " + showPts(v));
}

// hole-free polygons: winding counts must be exactly the region
template <class T, class Polys>
void checkPolys(const Grid<T>& g, const Polys& ps, Mask want, mc::Case& c, const char* what, bool needWinding = false) {
  std::vector<int> total(g.W * g.H, 0);
  for (auto& p : ps) {
    std::vector<Pt<T> > v = points<T>(p);
    checkLoop(v, true, c, what, needWinding);
    std::vector<int> cnt(g.W * g.H, 0);
    addLoop(g, v, cnt, c);
    int s = signedArea2(v) > 0 ? 1 : -1;
    if ((bp::winding(p) == bp::direction_1d(bp::COUNTERCLOCKWISE)) != (s > 0)) c.fail("winding", std::string(what) + ": winding() disagrees with the vertices " + showPts(v));
    for (auto& x : cnt) x *= s;
    requireMask(g, cnt, c, what);  // simple: winding number 0 or 1
    for (size_t i = 0; i < cnt.size(); ++i) total[i] += cnt[i];
  }
  expect(g, requireMask(g, total, c, what), want, c, "wrong_cover", what);
}

// polygons with holes: each hole inside its shell, pieces disjoint
template <class T, class Polys>
void checkPolysWithHoles(const Grid<T>& g, const Polys& ps, Mask want, mc::Case& c, const char* what, bool needWinding = false) {
  std::vector<int> total(g.W * g.H, 0);
  for (auto& p : ps) {
    std::vector<Pt<T> > v = points<T>(p);
    checkLoop(v, true, c, what, needWinding);
    std::vector<int> cnt(g.W * g.H, 0);
    addLoop(g, v, cnt, c);
    int s = signedArea2(v) > 0 ? 1 : -1;
    if ((bp::winding(p) == bp::direction_1d(bp::COUNTERCLOCKWISE)) != (s > 0)) c.fail("winding", std::string(what) + ": winding() disagrees with the vertices " + showPts(v));
    for (auto& x : cnt) x *= s;
    Mask shell = requireMask(g, cnt, c, what), holes = 0;
    for (auto h = bp::begin_holes(p); h != bp::end_holes(p); ++h) {
      std::vector<Pt<T> > hv = points<T>(*h);
      checkLoop(hv, false, c, what, needWinding);
      std::vector<int> hc(g.W * g.H, 0);
      addLoop(g, hv, hc, c);
      int hs = signedArea2(hv) > 0 ? 1 : -1;
      for (auto& x : hc) x *= hs;
      Mask hm = requireMask(g, hc, c, what);
      if (hm & ~shell) c.fail("hole_outside", std::string(what) + ": hole not inside its shell " + showPts(hv));
      if (hm & holes) c.fail("hole_overlap", std::string(what) + ": holes overlap " + showPts(hv));
      holes |= hm;
    }
    Mask m = shell & ~holes;
    for (int i = 0; i < g.W * g.H; ++i)
      if ((m >> i) & 1) total[i]++;
  }
  expect(g, requireMask(g, total, c, what), want, c, "wrong_cover", what);
}

template <class P>
std::size_t vertexCount(const P& p) {
  auto v = points<typename bp::polygon_traits<P>::coordinate_type>(p);
  if (v.size() > 1 && v.front().x == v.back().x && v.front().y == v.back().y) v.pop_back();
  return v.size();
}
}  // namespace m90
#endif
