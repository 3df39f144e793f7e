// All simple polygons (vertex cycles) over a product grid of coordinates, which
// may be irregular and may reach the ends of the coordinate range.
#ifndef VERIF_CYC_HPP
#define VERIF_CYC_HPP
#include "arr.hpp"
namespace cyc {
using namespace arr;
enum Kind { ANY, K45, RECT };
inline W dot(const P& a, const P& b, const P& c) { return W(b.x - a.x) * (c.x - b.x) + W(b.y - a.y) * (c.y - b.y); }
inline bool onSeg(const P& a, const P& b, const P& p) {
  return cross(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
inline bool meet(const P& a, const P& b, const P& c, const P& d) {
  if (onSeg(a, b, c) || onSeg(a, b, d) || onSeg(c, d, a) || onSeg(c, d, b)) return true;
  return sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 && sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0;
}
// counterclockwise, starting at the lexicographically lowest vertex; straight:
// vertices in the middle of an edge are allowed (not for RECT)
inline std::vector<Loop> cycles(const std::vector<i64>& X, const std::vector<i64>& Y, int k, Kind kind, bool straight, int kmin = 3) {
  std::vector<P> pts;
  for (i64 x : X)
    for (i64 y : Y) pts.push_back(P{x, y});
  std::vector<Loop> r;
  Loop cur;
  std::vector<char> used(pts.size(), 0);
  auto dirOk = [&](const P& a, const P& b) {
    i64 dx = b.x - a.x, dy = b.y - a.y;
    if (kind == RECT) return !dx || !dy;
    return kind == ANY || !dx || !dy || dx == dy || dx == -dy;
  };
  auto turnOk = [&](const P& a, const P& b, const P& c) {
    if (cross(a, b, c) != 0) return true;
    return straight && kind != RECT && dot(a, b, c) > 0;
  };
  std::function<void(size_t)> go = [&](size_t start) {
    size_t q = cur.size();
    if (q >= 3 && int(q) >= kmin && dirOk(cur[q - 1], cur[0]) && turnOk(cur[q - 2], cur[q - 1], cur[0]) && turnOk(cur[q - 1], cur[0], cur[1])) {
      bool ok = true;
      for (size_t i = 1; ok && i + 2 < q; ++i)
        if (meet(cur[i], cur[i + 1], cur[q - 1], cur[0])) ok = false;
      if (ok && area2(cur) > 0) r.push_back(cur);
    }
    if (int(q) == k) return;
    for (size_t j = start + 1; j < pts.size(); ++j) {
      if (used[j] || !dirOk(cur[q - 1], pts[j])) continue;
      if (q >= 2 && !turnOk(cur[q - 2], cur[q - 1], pts[j])) continue;
      bool ok = true;
      for (size_t i = 0; ok && i + 2 < q; ++i)
        if (meet(cur[i], cur[i + 1], cur[q - 1], pts[j])) ok = false;
      if (!ok) continue;
      used[j] = 1;
      cur.push_back(pts[j]);
      go(start);
      cur.pop_back();
      used[j] = 0;
    }
  };
  for (size_t s = 0; s < pts.size(); ++s) {
    cur.assign(1, pts[s]);
    go(s);
  }
  return r;
}
// 1 strictly inside, 0 on the boundary, -1 outside
inline int where(const Loop& l, const P& p) {
  bool in = false;
  size_t n = l.size();
  for (size_t i = 0; i < n; ++i) {
    const P &a = l[i], &b = l[i + 1 == n ? 0 : i + 1];
    if (onSeg(a, b, p)) return 0;
    if ((a.y <= p.y) == (b.y <= p.y)) continue;
    int t = sgn(cross(a, b, p));
    if ((a.y <= p.y) == (t > 0)) in = !in;
  }
  return in ? 1 : -1;
}
inline bool is45(const Loop& l) {
  for (size_t i = 0; i < l.size(); ++i) {
    const P &a = l[i], &b = l[(i + 1) % l.size()];
    i64 dx = b.x - a.x, dy = b.y - a.y;
    if (dx && dy && dx != dy && dx != -dy) return false;
  }
  return true;
}
// the loop read from vertex s, reversed if rev, first vertex repeated if closed
inline Loop variant(const Loop& l, size_t s, bool rev, bool closed) {
  Loop r;
  size_t n = l.size();
  for (size_t i = 0; i < n; ++i) r.push_back(l[(rev ? s + n - i : s + i) % n]);
  if (closed) r.push_back(r[0]);
  return r;
}
}  // namespace cyc
#endif
