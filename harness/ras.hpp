// Unit-cell raster model in a 64x64 window, for histories and resizing.
#ifndef VERIF_RAS_HPP
#define VERIF_RAS_HPP
#include "m90.hpp"
#ifndef RAS_OFF
#define RAS_OFF 20
#endif
namespace m90 {
// big raster: unit cells [i, i+1) x [j, j+1), i, j in [-OFF, 64-OFF)
const int OFF = RAS_OFF, N = 64;
struct Ras {
  u64 r[N];
  Ras() { memset(r, 0, sizeof r); }
  bool operator==(const Ras& o) const { return !memcmp(r, o.r, sizeof r); }
  bool any() const {
    for (int y = 0; y < N; ++y)
      if (r[y]) return true;
    return false;
  }
};
inline u64 sh(u64 v, int k) { return k >= 0 ? v << k : v >> -k; }
// dilation by the integer box [-w, e] x [-s, n] (w+e >= 0, s+n >= 0)
inline Ras dilate(const Ras& a, int w, int e, int s, int n) {
  Ras h, o;
  for (int y = 0; y < N; ++y)
    for (int d = -w; d <= e; ++d) h.r[y] |= sh(a.r[y], d);
  for (int y = 0; y < N; ++y)
    for (int d = -s; d <= n; ++d)
      if (y - d >= 0 && y - d < N) o.r[y] |= h.r[y - d];
  return o;
}
inline Ras inv(const Ras& a) {
  Ras o;
  for (int y = 0; y < N; ++y) o.r[y] = ~a.r[y];
  return o;
}
// erosion: west edges move east by w, ... ; outside of the raster counts as background
inline Ras erode(const Ras& a, int w, int e, int s, int n) {
  Ras h, o;
  for (int y = 0; y < N; ++y) {
    u64 v = ~u64(0);
    for (int d = -w; d <= e; ++d) v &= sh(a.r[y], -d);
    h.r[y] = v;
  }
  for (int y = 0; y < N; ++y) {
    u64 v = ~u64(0);
    for (int d = -s; d <= n; ++d) v &= (y + d >= 0 && y + d < N) ? h.r[y + d] : 0;
    o.r[y] = v;
  }
  return o;
}
template <class T>
Ras rasterOf(const Grid<T>& g, Mask m) {
  Ras o;
  for (int r = 0; r < g.H; ++r)
    for (int q = 0; q < g.W; ++q)
      if (g.has(m, q, r))
        for (int y = int(g.ys[r]); y < int(g.ys[r + 1]); ++y)
          for (int x = int(g.xs[q]); x < int(g.xs[q + 1]); ++x) o.r[y + OFF] |= u64(1) << (x + OFF);
  return o;
}
inline std::string showR(const Ras& a) {
  std::string s;
  int x0 = N, x1 = -1, y0 = N, y1 = -1;
  for (int y = 0; y < N; ++y)
    for (int x = 0; x < N; ++x)
      if ((a.r[y] >> x) & 1) x0 = std::min(x0, x), x1 = std::max(x1, x), y0 = std::min(y0, y), y1 = std::max(y1, y);
  if (x1 < 0) return "empty";
  for (int y = y1; y >= y0; --y) {
    for (int x = x0; x <= x1; ++x) s += ((a.r[y] >> x) & 1) ? '#' : '.';
    if (y > y0) s += '/';
  }
  return s + " at (" + str(x0 - OFF) + "," + str(y0 - OFF) + ")";
}
template <class T, class S>
Ras readBack(const S& s, mc::Case& c, const char* what) {
  std::vector<bp::rectangle_data<T> > rs;
  bp::get_rectangles(rs, s);
  Ras o;
  for (auto& r : rs) {
    long x0 = long(bp::xl(r)) + OFF, x1 = long(bp::xh(r)) + OFF, y0 = long(bp::yl(r)) + OFF, y1 = long(bp::yh(r)) + OFF;
    if (T(x0 - OFF) != bp::xl(r) || T(y1 - OFF) != bp::yh(r)) c.fail("fraction", "non-integral result coordinate " + showRect(r));
    if (x0 >= x1 || y0 >= y1) c.fail("degenerate", std::string(what) + ": degenerate rectangle " + showRect(r));
    if (x0 < 0 || y0 < 0 || x1 > N || y1 > N) c.fail("escape", std::string(what) + ": rectangle far outside the possible result " + showRect(r));
    u64 row = (x1 - x0 == 64 ? ~u64(0) : ((u64(1) << (x1 - x0)) - 1)) << x0;
    for (long y = y0; y < y1; ++y) {
      if (o.r[y] & row) c.fail("overlap", std::string(what) + ": result rectangles overlap");
      o.r[y] |= row;
    }
  }
  return o;
}
template <class T, class S>
void expectR(const S& s, const Ras& want, mc::Case& c, const std::string& what) {
  Ras got = readBack<T>(s, c, what.c_str());
  c.step();
  if (!(got == want)) c.fail("wrong_region", what + ": got " + showR(got) + " want " + showR(want));
}
// set operations and images of rasters
inline Ras orr(const Ras& a, const Ras& b) { Ras o; for (int y = 0; y < N; ++y) o.r[y] = a.r[y] | b.r[y]; return o; }
inline Ras andr(const Ras& a, const Ras& b) { Ras o; for (int y = 0; y < N; ++y) o.r[y] = a.r[y] & b.r[y]; return o; }
inline Ras notr(const Ras& a, const Ras& b) { Ras o; for (int y = 0; y < N; ++y) o.r[y] = a.r[y] & ~b.r[y]; return o; }
inline Ras xorr(const Ras& a, const Ras& b) { Ras o; for (int y = 0; y < N; ++y) o.r[y] = a.r[y] ^ b.r[y]; return o; }
struct Skip {};
// image of the region under monotone maps of the grid lines (possibly collapsing)
template <class FX, class FY>
inline Ras mapLines(const Ras& a, FX fx, FY fy) {
  Ras o;
  for (int y = 0; y < N; ++y)
    if (a.r[y])
      for (int x = 0; x < N; ++x)
        if ((a.r[y] >> x) & 1) {
          int x0 = fx(x - OFF), x1 = fx(x - OFF + 1), y0 = fy(y - OFF), y1 = fy(y - OFF + 1);
          if (x0 > x1) std::swap(x0, x1);
          if (y0 > y1) std::swap(y0, y1);
          if (x0 < -OFF + 8 || y0 < -OFF + 8 || x1 > N - OFF - 8 || y1 > N - OFF - 8) throw Skip();
          for (int v = y0; v < y1; ++v)
            for (int u = x0; u < x1; ++u) o.r[v + OFF] |= u64(1) << (u + OFF);
        }
  return o;
}
inline Ras swapXY(const Ras& a) {
  Ras o;
  for (int y = 0; y < N; ++y)
    if (a.r[y])
      for (int x = 0; x < N; ++x)
        if ((a.r[y] >> x) & 1) o.r[x] |= u64(1) << y;
  return o;
}
inline int id(int v) { return v; }
inline int neg(int v) { return -v; }
inline int rnd(double v) { return int(std::floor(v + 0.5)); }
}  // namespace m90
#endif
