// Exact raster of 45-degree regions with integer vertices.
#ifndef VERIF_RAS4_HPP
#define VERIF_RAS4_HPP
#include "arr.hpp"
namespace arr {
// coverage counts on the quarter triangles of every unit square of a window
struct Ras4 {
  i64 x0, y0;
  int w, h;
  std::vector<int> v;  // 3 rows per unit, 2 samples per unit and row
  Ras4(i64 a, i64 b, i64 c, i64 d) : x0(a), y0(b), w(int(c - a)), h(int(d - b)), v(size_t(w) * h * 6) {}
  int& at(int row, int k) { return v[size_t(row) * (2 * w) + k]; }
  // sample k of a row: x in sixths
  static int sx(int sub, int k) { return sub == 1 ? 6 * (k / 2) + (k & 1 ? 5 : 1) : 6 * (k / 2) + 3; }
  void add(const Loop& l, int sgn = 1) {
    size_t n = l.size();
    for (size_t i = 0; i < n; ++i) {
      P a = l[i], b = l[(i + 1) % n];
      if (a.y == b.y) continue;
      int s = a.y < b.y ? -sgn : sgn;  // ccw loops count +1
      if (a.y > b.y) std::swap(a, b);
      i64 dir = a.x == b.x ? 0 : a.x < b.x ? 1 : -1;
      for (i64 y = std::max(a.y, y0); y < std::min<i64>(b.y, y0 + h); ++y)
        for (int sub = 0; sub < 3; ++sub) {
          i64 dy = 6 * (y - a.y) + 2 * sub + 1, cx = 6 * (a.x - x0) + dir * dy;
          int row = int(y - y0) * 3 + sub;
          // all samples right of cx
          int k0 = cx < 0 ? 0 : int(std::max<i64>(0, 2 * (cx / 6) - 2));
          while (k0 < 2 * w && sx(sub, k0) <= cx) ++k0;
          for (int k = k0; k < 2 * w; ++k) at(row, k) += s;
        }
    }
  }
  void any(const Loop& l) {
    i64 a = l[0].x, b = l[0].y, c = a, d = b;
    for (auto& p : l) a = std::min(a, p.x), c = std::max(c, p.x), b = std::min(b, p.y), d = std::max(d, p.y);
    if (a == c || b == d) return;
    static thread_local Ras4 t(0, 0, 0, 0);
    t.x0 = a, t.y0 = b, t.w = int(c - a), t.h = int(d - b);
    t.v.assign(size_t(t.w) * t.h * 6, 0);
    t.add(l);
    for (int row = 0; row < 3 * t.h; ++row) {
      int* dst = &v[size_t(row + 3 * (b - y0)) * (2 * w) + 2 * (a - x0)];
      const int* src = &t.v[size_t(row) * (2 * t.w)];
      for (int k = 0; k < 2 * t.w; ++k)
        if (src[k]) dst[k] = 1;
    }
  }
  P square(size_t i) const { return P{x0 + i64(i % (2 * w) / 2), y0 + i64(i / (2 * w) / 3)}; }
  std::string where(size_t i) const {
    size_t row = i / (2 * w), k = i % (2 * w);
    return "square (" + std::to_string(x0 + i64(k / 2)) + "," + std::to_string(y0 + i64(row / 3)) + ")";
  }
};
}  // namespace arr
#endif
