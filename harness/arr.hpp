// Reference model for regions whose edges are segments between points of a
// small lattice: the planar arrangement of all such segments is built exactly
// (scaled so that every crossing is an integer point); a region is then a set
// of faces, and Boolean operations are bit operations.
#ifndef VERIF_ARR_HPP
#define VERIF_ARR_HPP
#include <algorithm>
#include <bitset>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include "mc.hpp"
namespace arr {
using mc::u64;
typedef std::int64_t i64;
typedef __int128 W;
struct P {
  i64 x, y;
  bool operator<(const P& o) const { return x != o.x ? x < o.x : y < o.y; }
  bool operator==(const P& o) const { return x == o.x && y == o.y; }
  bool operator!=(const P& o) const { return !(*this == o); }
};
typedef std::vector<P> Loop;
typedef std::bitset<576> Mask;

inline std::string show(const Loop& l) {
  std::string s;
  for (auto& p : l) s += "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")";
  return s;
}
inline std::string show(const std::vector<Loop>& l) {
  std::string s;
  for (auto& p : l) s += (s.empty() ? "" : " ; ") + show(p);
  return s;
}
inline W cross(const P& a, const P& b, const P& c) { return W(b.x - a.x) * (c.y - a.y) - W(b.y - a.y) * (c.x - a.x); }
inline int sgn(W v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline W area2(const Loop& l) {
  W a = 0;
  for (size_t i = 0; i < l.size(); ++i) {
    const P &p = l[i], &q = l[(i + 1) % l.size()];
    a += W(p.x - l[0].x) * (q.y - l[0].y) - W(p.y - l[0].y) * (q.x - l[0].x);
  }
  return a;
}
// winding number of the loop (coordinates multiplied by m) around s, s on no edge
inline int wind(const Loop& l, const P& s, i64 m) {
  int w = 0;
  size_t n = l.size();
  for (size_t i = 0; i < n; ++i) {
    const P &a = l[i], &b = l[i + 1 == n ? 0 : i + 1];
    i64 ay = a.y * m, by = b.y * m;
    if ((ay <= s.y) == (by <= s.y)) continue;
    P A = {a.x * m, ay}, B = {b.x * m, by};
    int t = sgn(cross(A, B, s));
    if (ay <= s.y) {
      if (t > 0) ++w;
    } else if (t < 0)
      --w;
  }
  return w;
}

inline i64 gcd(i64 a, i64 b) {
  a = a < 0 ? -a : a;
  b = b < 0 ? -b : b;
  while (b) {
    i64 t = a % b;
    a = b;
    b = t;
  }
  return a;
}

struct Arr {
  int n, m;
  bool only45;
  i64 S;                       // coordinates of faces: lattice * S
  std::vector<Loop> face;      // convex, counterclockwise
  std::vector<P> smp;          // 3 * S units, strictly inside
  std::vector<i64> a2;         // twice the area
  std::vector<std::vector<int>> fv;  // vertex ids of each face
  std::vector<P> vert;
  Mask all;
  Arr(int n_, int m_, bool o45) : n(n_), m(m_), only45(o45) {
    std::vector<std::pair<P, P>> seg;
    std::vector<P> pts;
    for (int x = 0; x <= n; ++x)
      for (int y = 0; y <= m; ++y) pts.push_back(P{x, y});
    std::set<P> dirs;
    for (size_t i = 0; i < pts.size(); ++i)
      for (size_t j = i + 1; j < pts.size(); ++j) {
        P d = {pts[j].x - pts[i].x, pts[j].y - pts[i].y};
        if (gcd(d.x, d.y) != 1) continue;
        if (only45 && d.x && d.y && d.x != d.y && d.x != -d.y) continue;
        seg.push_back(std::make_pair(pts[i], pts[j]));
        dirs.insert(d);
      }
    S = 1;
    for (auto& d : dirs)
      for (auto& e : dirs) {
        i64 k = d.x * e.y - d.y * e.x;
        if (k < 0) k = -k;
        if (k) S = S / gcd(S, k) * k;
      }
    for (auto& s : seg) {
      s.first = P{s.first.x * S, s.first.y * S};
      s.second = P{s.second.x * S, s.second.y * S};
    }
    std::map<P, int> id;
    auto vid = [&](const P& p) {
      auto it = id.find(p);
      if (it != id.end()) return it->second;
      int k = int(vert.size());
      vert.push_back(p);
      id[p] = k;
      return k;
    };
    std::set<std::pair<int, int>> edges;
    for (size_t i = 0; i < seg.size(); ++i) {
      std::set<P> on;
      on.insert(seg[i].first);
      on.insert(seg[i].second);
      const P a = seg[i].first, b = seg[i].second;
      for (size_t j = 0; j < seg.size(); ++j) {
        const P c = seg[j].first, d = seg[j].second;
        W t1 = cross(a, b, c), t2 = cross(a, b, d), t3 = cross(c, d, a), t4 = cross(c, d, b);
        if (t1 == 0 && t2 == 0) continue;
        if (sgn(t1) * sgn(t2) > 0 || sgn(t3) * sgn(t4) > 0) continue;
        // a + (b-a) * t3/(t3-t4)
        W den = t3 - t4;
        W px = W(b.x - a.x) * t3, py = W(b.y - a.y) * t3;
        if (px % den || py % den) abort();
        on.insert(P{a.x + i64(px / den), a.y + i64(py / den)});
      }
      P prev = *on.begin();
      for (auto& q : on) {
        if (q == prev) continue;
        edges.insert(std::minmax(vid(prev), vid(q)));
        prev = q;
      }
    }
    std::vector<std::vector<int>> adj(vert.size());
    for (auto& e : edges) {
      adj[e.first].push_back(e.second);
      adj[e.second].push_back(e.first);
    }
    for (size_t v = 0; v < adj.size(); ++v)
      std::sort(adj[v].begin(), adj[v].end(), [&](int a, int b) {
        P o = vert[v], p = vert[a], q = vert[b];
        auto half = [&](const P& r) { return r.y < o.y || (r.y == o.y && r.x < o.x); };
        if (half(p) != half(q)) return half(p) < half(q);
        return cross(o, p, q) > 0;
      });
    std::set<std::pair<int, int>> done;
    for (size_t v = 0; v < adj.size(); ++v)
      for (int w : adj[v]) {
        int a = int(v), b = w;
        if (done.count(std::make_pair(a, b))) continue;
        std::vector<int> ids;
        Loop l;
        while (done.insert(std::make_pair(a, b)).second) {
          ids.push_back(a);
          l.push_back(vert[a]);
          // next: clockwise neighbour of a around b
          auto& nb = adj[b];
          size_t k = std::find(nb.begin(), nb.end(), a) - nb.begin();
          int c = nb[(k + nb.size() - 1) % nb.size()];
          a = b;
          b = c;
        }
        W A = area2(l);
        if (A <= 0) continue;  // outer face
        P s = {0, 0};
        // three corners with a positive turn
        bool ok = false;
        for (size_t i = 0; i < l.size(); ++i) {
          const P &p = l[i], &q = l[(i + 1) % l.size()], &r = l[(i + 2) % l.size()];
          W t = cross(p, q, r);
          if (t < 0) abort();
          if (t > 0 && !ok) {
            ok = true;
            s = P{p.x + q.x + r.x, p.y + q.y + r.y};
          }
        }
        if (!ok) abort();
        if (face.size() < all.size()) all[face.size()] = 1;
        face.push_back(l);
        smp.push_back(s);
        a2.push_back(i64(A));
        fv.push_back(ids);
        if (face.size() > all.size()) { fprintf(stderr, "too many faces\n"); abort(); }
      }
    W t = 0;
    for (i64 a : a2) t += a;
    if (t != W(2) * n * m * S * S) abort();
    vmask.resize(face.size());
    if (vert.size() <= MAXV)
      for (size_t f = 0; f < face.size(); ++f)
        for (int v : fv[f]) vmask[f][v] = 1;
  }
  // faces of a loop given in lattice coordinates, counted by winding number
  void count(const Loop& l, std::vector<int>& c, int sign = 1) const {
    for (size_t f = 0; f < face.size(); ++f) c[f] += sign * wind(l, smp[f], 3 * S);
  }
  Mask mask(const Loop& l) const {
    Mask r;
    for (size_t f = 0; f < face.size(); ++f)
      if (wind(l, smp[f], 3 * S)) r[f] = 1;
    return r;
  }
  W area(const Mask& r) const {
    W a = 0;
    for (size_t f = 0; f < face.size(); ++f)
      if (r[f]) a += a2[f];
    return a;
  }
  static const int MAXV = 576;
  typedef std::bitset<MAXV> VMask;
  std::vector<VMask> vmask;
  VMask closure(const Mask& r) const {
    VMask v;
    for (size_t f = 0; f < face.size(); ++f)
      if (r[f]) v |= vmask[f];
    return v;
  }
};

// real = lattice * S * k + (ox, oy)
struct Emb {
  i64 k, ox, oy;
  bool swap, nx, ny;
  Emb(i64 k_ = 1, i64 x = 0, i64 y = 0, bool s = false, bool fx = false, bool fy = false) : k(k_), ox(x), oy(y), swap(s), nx(fx), ny(fy) {}
  P lin(i64 x, i64 y, i64 mul) const {
    if (swap) std::swap(x, y);
    if (nx) x = -x;
    if (ny) y = -y;
    return P{x + ox * mul, y + oy * mul};
  }
};
struct Space {
  const Arr& A;
  Emb e;
  i64 s;  // real units per lattice unit
  std::vector<P> smp;  // 3 * real
  Space(const Arr& a, const Emb& em, i64 unit = 0) : A(a), e(em), s(unit ? unit : a.S * em.k) {
    // unit != 0: lattice unit is `unit`, crossings need not be integral; the
    // samples are then in units of 3 * S real
    mul = unit ? 3 * a.S : 3;
    for (auto& q : a.smp) {
      i64 f = unit ? unit : em.k;
      smp.push_back(e.lin(q.x * f, q.y * f, mul));
    }
  }
  i64 mul;
  P real(const P& lat) const { return e.lin(lat.x * s, lat.y * s, 1); }
  Loop real(const Loop& l) const {
    Loop r;
    for (auto& p : l) r.push_back(real(p));
    return r;
  }
  W area2(const Mask& m) const { return A.area(m) * e.k * e.k; }
};

// output of the library: loops with holes, real coordinates
struct Poly {
  Loop shell;
  std::vector<Loop> holes;
};
inline std::string show(const std::vector<Poly>& v) {
  std::string s;
  for (auto& p : v) {
    s += "[" + show(p.shell);
    for (auto& h : p.holes) s += " hole " + show(h);
    s += "]";
  }
  return s;
}

struct Edges {
  std::vector<std::pair<P, P>> e;
  void add(const Loop& l) {
    for (size_t i = 0; i < l.size(); ++i)
      if (l[i] != l[(i + 1) % l.size()]) e.push_back(std::make_pair(l[i], l[(i + 1) % l.size()]));
  }
  bool covers(P a, P b) const {
    if (b < a) std::swap(a, b);
    std::vector<std::pair<P, P>> iv;
    for (auto& s : e) {
      P p = s.first, q = s.second;
      if (cross(a, b, p) != 0 || cross(a, b, q) != 0) continue;
      if (q < p) std::swap(p, q);
      iv.push_back(std::make_pair(p, q));
    }
    std::sort(iv.begin(), iv.end());
    P at = a;
    for (auto& s : iv) {
      if (at < s.first) return false;
      if (at < s.second) at = s.second;
      if (!(at < b)) return true;
    }
    return !(at < b);
  }
};

inline void checkLoop(const Loop& l, bool ccw, mc::Case& c, const std::string& what, bool needWinding = true) {
  if (l.size() < 3) c.fail("degenerate", what + ": fewer than 3 vertices " + show(l));
  for (size_t i = 0; i < l.size(); ++i)
    if (l[i] == l[(i + 1) % l.size()]) c.fail("degenerate", what + ": repeated vertex in " + show(l));
  W a = area2(l);
  if (a == 0) c.fail("degenerate", what + ": zero area " + show(l));
  if (needWinding && (a > 0) != ccw) c.fail("winding", what + ": wrong winding " + show(l));
}
inline Loop open(Loop l) {
  if (l.size() > 1 && l.front() == l.back()) l.pop_back();
  return l;
}
// The pieces are disjoint, cover exactly `want`, are bounded only by operand
// edges (exact = true), with windings and holes as documented.
inline void region(const Space& sp, const std::vector<Poly>& out, const Mask& want, const Edges* ops, mc::Case& c, const std::string& what, bool keyhole = false) {
  W tot = 0;
  std::vector<int> cnt(sp.smp.size(), 0);
  for (auto& p : out) {
    checkLoop(p.shell, true, c, what, true);
    W a = area2(p.shell);
    W own = a;
    std::vector<int> in(sp.smp.size(), 0);
    for (size_t f = 0; f < sp.smp.size(); ++f) {
      in[f] = wind(p.shell, sp.smp[f], sp.mul);
      if (in[f] != 0 && in[f] != 1) c.fail("overlap", what + ": polygon covers a point " + std::to_string(in[f]) + " times: " + show(p.shell));
    }
    for (auto& h : p.holes) {
      checkLoop(h, false, c, what + " hole", true);
      W ha = area2(h);
      own += ha;
      for (size_t f = 0; f < sp.smp.size(); ++f) {
        int w = wind(h, sp.smp[f], sp.mul);
        if (w != 0 && w != -1) c.fail("overlap", what + ": hole winds strangely: " + show(h));
        in[f] += w;
        if (in[f] < 0) c.fail("hole_outside", what + ": hole outside its shell or overlapping another: " + show(h));
      }
    }
    if (own <= 0) c.fail("degenerate", what + ": piece without area " + show(p.shell));
    tot += own;
    for (size_t f = 0; f < sp.smp.size(); ++f) cnt[f] += in[f];
  }
  for (size_t f = 0; f < sp.smp.size(); ++f) {
    if (cnt[f] > 1) c.fail("overlap", what + ": pieces overlap: " + show(out));
    if (cnt[f] != int(want[f])) c.fail(cnt[f] ? "extra_area" : "missing_area", what + ": wrong region near (" + std::to_string(double(sp.smp[f].x) / double(sp.mul)) + "," + std::to_string(double(sp.smp[f].y) / double(sp.mul)) + "): " + show(out));
  }
  if (!ops) return;
  for (auto& p : out) {
    auto loop = [&](const Loop& l) {
      for (size_t i = 0; i < l.size(); ++i) {
        const P &a = l[i], &b = l[(i + 1) % l.size()];
        if (!keyhole && !ops->covers(a, b)) c.fail("foreign_edge", what + ": edge (" + std::to_string(a.x) + "," + std::to_string(a.y) + ")-(" + std::to_string(b.x) + "," + std::to_string(b.y) + ") is on no operand edge: " + show(out));
      }
    };
    loop(p.shell);
    for (auto& h : p.holes) loop(h);
  }
  if (tot != sp.area2(want)) c.fail("area", what + ": total area wrong: " + show(out));
}

// ------------------------------------------------------------ input generators
inline bool touchSeg(const P& a, const P& b, const P& c, const P& d) {
  auto on = [](const P& p, const P& q, const P& r) {
    return cross(p, q, r) == 0 && std::min(p.x, q.x) <= r.x && r.x <= std::max(p.x, q.x) && std::min(p.y, q.y) <= r.y && r.y <= std::max(p.y, q.y);
  };
  if (on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b)) return true;
  return sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 && sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0;
}
// all simple polygons with up to k vertices on the lattice, counterclockwise,
// starting at their lowest vertex, without straight angles
inline std::vector<Loop> simplePolys(int n, int m, int k, bool only45 = false) {
  std::vector<P> pts;
  for (int x = 0; x <= n; ++x)
    for (int y = 0; y <= m; ++y) pts.push_back(P{x, y});
  std::vector<Loop> r;
  Loop cur;
  std::vector<char> used(pts.size(), 0);
  auto dirOk = [&](const P& a, const P& b) {
    i64 dx = b.x - a.x, dy = b.y - a.y;
    return !only45 || !dx || !dy || dx == dy || dx == -dy;
  };
  std::function<void(size_t)> go = [&](size_t start) {
    if (cur.size() >= 3 && dirOk(cur.back(), cur[0])) {
      bool ok = true;
      size_t q = cur.size();
      if (cross(cur[q - 2], cur[q - 1], cur[0]) == 0 || cross(cur[q - 1], cur[0], cur[1]) == 0) ok = false;
      for (size_t i = 1; ok && i + 2 < q; ++i)
        if (touchSeg(cur[i], cur[i + 1], cur[q - 1], cur[0])) ok = false;
      if (ok && q >= 3 && area2(cur) > 0) r.push_back(cur);
    }
    if (int(cur.size()) == k) return;
    for (size_t j = start + 1; j < pts.size(); ++j) {
      if (used[j]) continue;
      size_t q = cur.size();
      if (!dirOk(cur.back(), pts[j])) continue;
      if (q >= 2 && cross(cur[q - 2], cur[q - 1], pts[j]) == 0) continue;
      bool ok = true;
      for (size_t i = 0; ok && i + 2 < q; ++i)
        if (touchSeg(cur[i], cur[i + 1], cur[q - 1], pts[j])) ok = false;
      if (!ok) continue;
      used[j] = 1;
      cur.push_back(pts[j]);
      go(start);
      cur.pop_back();
      used[j] = 0;
    }
  };
  for (size_t s = 0; s < pts.size(); ++s) {
    cur.assign(1, pts[s]);
    go(s);
  }
  return r;
}
}  // namespace arr

// ------------------------------------------------ tolerance (snapped) checking
namespace arr {
struct D2 {
  long double x, y;
};
inline long double distSeg(D2 p, const P& a, const P& b) {
  long double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy;
  long double px = p.x - a.x, py = p.y - a.y;
  long double t = l > 0 ? (px * dx + py * dy) / l : 0;
  if (t < 0) t = 0;
  if (t > 1) t = 1;
  long double ex = px - t * dx, ey = py - t * dy;
  return std::sqrt(ex * ex + ey * ey);
}
inline long double distEdges(D2 p, const Edges& e) {
  long double m = 1e30L;
  for (auto& s : e.e) m = std::min(m, distSeg(p, s.first, s.second));
  return m;
}
// Like region(), but results may differ from the exact ones within `tol` of an
// operand edge.  truth(f) tells whether sample f is in the exact region.
inline void snapped(const std::vector<P>& smp, i64 mul, const std::vector<Poly>& out, const std::vector<char>& truth, const Edges& ops, double tol, mc::Case& c, const std::string& what, bool keyhole = false, bool crossings = true, bool soft = false) {
  std::vector<int> cnt(smp.size(), 0);
  std::vector<std::pair<P, P>> oe;
  for (auto& p : out) {
    checkLoop(p.shell, true, c, what, true);
    W own = area2(p.shell);
    std::vector<int> in(smp.size(), 0);
    for (size_t f = 0; f < smp.size(); ++f) in[f] = wind(p.shell, smp[f], mul);
    for (auto& h : p.holes) {
      checkLoop(h, false, c, what + " hole", true);
      own += area2(h);
      for (size_t f = 0; f < smp.size(); ++f) in[f] += wind(h, smp[f], mul);
    }
    if (own <= 0) c.fail("degenerate", what + ": piece without area " + show(p.shell));
    for (size_t f = 0; f < smp.size(); ++f) {
      if (in[f] < 0 || in[f] > 1) c.fail("overlap", what + ": polygon overlaps itself or a hole is outside: " + show(out));
      cnt[f] += in[f];
    }
    auto loop = [&](const Loop& l) {
      for (size_t i = 0; i < l.size(); ++i) oe.push_back(std::make_pair(l[i], l[(i + 1) % l.size()]));
    };
    loop(p.shell);
    for (auto& h : p.holes) loop(h);
  }
  for (size_t f = 0; f < smp.size(); ++f) {
    // soft: rounded cuts between pieces may make them overlap near an edge
    if (cnt[f] > 1 && !soft) c.fail("overlap", what + ": pieces overlap: " + show(out));
    if (cnt[f] == int(truth[f])) continue;
    D2 s = {(long double)smp[f].x / mul, (long double)smp[f].y / mul};
    if (distEdges(s, ops) > tol) c.fail(cnt[f] > 1 ? "overlap" : cnt[f] ? "extra_area" : "missing_area", what + ": wrong far from every edge near (" + std::to_string(double(s.x)) + "," + std::to_string(double(s.y)) + "): " + show(out));
  }
  if (!keyhole)
    for (auto& e : oe)
      for (int k = 0; k <= 4; ++k) {
        D2 s = {e.first.x + (e.second.x - e.first.x) * (k / 4.0L), e.first.y + (e.second.y - e.first.y) * (k / 4.0L)};
        if (distEdges(s, ops) > tol) c.fail("foreign_edge", what + ": edge (" + std::to_string(e.first.x) + "," + std::to_string(e.first.y) + ")-(" + std::to_string(e.second.x) + "," + std::to_string(e.second.y) + ") strays from the operands: " + show(out));
      }
  if (crossings)
    for (size_t i = 0; i < oe.size(); ++i)
      for (size_t j = i + 1; j < oe.size(); ++j) {
        const P &a = oe[i].first, &b = oe[i].second, &p = oe[j].first, &q = oe[j].second;
        if (sgn(cross(a, b, p)) * sgn(cross(a, b, q)) < 0 && sgn(cross(p, q, a)) * sgn(cross(p, q, b)) < 0) c.fail("crossing", what + ": output edges cross: " + show(out));
      }
}
}  // namespace arr
#endif
