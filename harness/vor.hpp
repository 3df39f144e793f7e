// Reference model of the Voronoi diagram of points and segments (segments
// touching other input only at end points), independent of the sweep line.
//
// Sites: distinct points (input points and end points) and distinct segments.
// The nearest set T(v) holds the sites at minimal distance of v, a segment
// counting only where the foot of the perpendicular lies on it.  Vertices are
// found from all triples of sites; edges from all pairs: the bisector of the
// pair is cut at the vertices on it and each gap is tested.
#ifndef VERIF_VOR_HPP
#define VERIF_VOR_HPP
#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <vector>
#ifdef VOR_QUAD
#include <quadmath.h>
#endif
#include "mc.hpp"
#include <boost/polygon/voronoi.hpp>

namespace vor {
using mc::u64;
#ifdef VOR_QUAD  // include with -Dvor=vorq style renaming to avoid mixing
typedef __float128 F;
inline F rt(F v) { return sqrtq(v); }
inline F ab(F v) { return v < 0 ? -v : v; }
static const F TINY = 1e-26L, EPS0 = 1e-19L, FAR = 1e24L;
#else
typedef long double F;
inline F rt(F v) { return std::sqrt(v); }
inline F ab(F v) { return v < 0 ? -v : v; }
static const F TINY = 1e-14L, EPS0 = 1e-11L, FAR = 1e12L;
#endif
typedef long long ll;

struct Obj {  // one input object
  bool seg;
  ll x0, y0, x1, y1;
};
inline Obj P(ll x, ll y) { return Obj{false, x, y, x, y}; }
inline Obj S(ll a, ll b, ll c, ll d) { return Obj{true, a, b, c, d}; }
inline std::string str(const Obj& o) {
  std::string s = (o.seg ? "s(" : "p(") + std::to_string(o.x0) + "," + std::to_string(o.y0);
  if (o.seg) s += " " + std::to_string(o.x1) + "," + std::to_string(o.y1);
  return s + ")";
}
inline std::string str(const std::vector<Obj>& v) {
  std::string s;
  for (auto& o : v) s += str(o) + " ";
  return s;
}
struct Site {
  bool seg;
  ll x0, y0, x1, y1;  // p0 < p1 lexicographically for segments
  bool operator<(const Site& o) const { return std::tie(seg, x0, y0, x1, y1) < std::tie(o.seg, o.x0, o.y0, o.x1, o.y1); }
  bool operator==(const Site& o) const { return std::tie(seg, x0, y0, x1, y1) == std::tie(o.seg, o.x0, o.y0, o.x1, o.y1); }
};
inline Site norm(const Obj& o) {
  Site s{o.seg && (o.x0 != o.x1 || o.y0 != o.y1), o.x0, o.y0, o.x1, o.y1};
  if (s.seg && std::tie(s.x1, s.y1) < std::tie(s.x0, s.y0)) {
    std::swap(s.x0, s.x1);
    std::swap(s.y0, s.y1);
  }
  return s;
}
inline Site pt(ll x, ll y) { return Site{false, x, y, x, y}; }
// A similarity with integer data: symmetry (bit 0 flips x, bit 1 flips y, then
// bit 2 swaps), then p -> k p + (ox, oy).
struct Map {
  int sym = 0;
  ll k = 1, ox = 0, oy = 0;
  bool reflects() const { return ((sym & 1) + (sym >> 1 & 1) + (sym >> 2 & 1)) & 1; }
  template <class N>
  void fwd(N& x, N& y) const {
    if (sym & 1) x = -x;
    if (sym & 2) y = -y;
    if (sym & 4) std::swap(x, y);
    x = N(k) * x + N(ox);
    y = N(k) * y + N(oy);
  }
  void inv(ll& x, ll& y) const {
    x = (x - ox) / k;
    y = (y - oy) / k;
    if (sym & 4) std::swap(x, y);
    if (sym & 1) x = -x;
    if (sym & 2) y = -y;
  }
  std::vector<Obj> operator()(std::vector<Obj> v) const {
    for (auto& o : v) {
      fwd(o.x0, o.y0);
      fwd(o.x1, o.y1);
    }
    return v;
  }
};
inline std::string str(const Site& s) {
  return str(Obj{s.seg, s.x0, s.y0, s.x1, s.y1});
}
inline std::vector<Site> sites(const std::vector<Obj>& in) {
  std::set<Site> s;
  for (auto& o : in) {
    s.insert(norm(o));
    if (o.seg) {
      s.insert(pt(o.x0, o.y0));
      s.insert(pt(o.x1, o.y1));
    }
  }
  return std::vector<Site>(s.begin(), s.end());
}

// exact validity: no point inside a segment, segments meet in end points only
inline ll cross(ll ax, ll ay, ll bx, ll by) { return ax * by - ay * bx; }
inline bool inside(const Site& s, ll x, ll y) {  // strictly inside the segment
  if (cross(s.x1 - s.x0, s.y1 - s.y0, x - s.x0, y - s.y0) != 0) return false;
  ll d = (x - s.x0) * (s.x1 - s.x0) + (y - s.y0) * (s.y1 - s.y0);
  ll l = (s.x1 - s.x0) * (s.x1 - s.x0) + (s.y1 - s.y0) * (s.y1 - s.y0);
  return d > 0 && d < l;
}
inline int sg(ll v) { return (v > 0) - (v < 0); }
inline bool compatible(const Site& a, const Site& b) {
  if (a == b) return true;
  if (!a.seg && !b.seg) return true;
  if (!a.seg) return !inside(b, a.x0, a.y0);
  if (!b.seg) return !inside(a, b.x0, b.y0);
  if (inside(a, b.x0, b.y0) || inside(a, b.x1, b.y1) || inside(b, a.x0, a.y0) || inside(b, a.x1, a.y1)) return false;
  int o1 = sg(cross(a.x1 - a.x0, a.y1 - a.y0, b.x0 - a.x0, b.y0 - a.y0));
  int o2 = sg(cross(a.x1 - a.x0, a.y1 - a.y0, b.x1 - a.x0, b.y1 - a.y0));
  int o3 = sg(cross(b.x1 - b.x0, b.y1 - b.y0, a.x0 - b.x0, a.y0 - b.y0));
  int o4 = sg(cross(b.x1 - b.x0, b.y1 - b.y0, a.x1 - b.x0, a.y1 - b.y0));
  return !(o1 * o2 < 0 && o3 * o4 < 0);
}
inline bool valid(const std::vector<Obj>& in) {
  for (size_t i = 0; i < in.size(); ++i)
    for (size_t j = i + 1; j < in.size(); ++j)
      if (!compatible(norm(in[i]), norm(in[j]))) return false;
  return true;
}

struct V2 {
  F x, y;
};
inline V2 operator-(V2 a, V2 b) { return {a.x - b.x, a.y - b.y}; }
inline V2 operator+(V2 a, V2 b) { return {a.x + b.x, a.y + b.y}; }
inline V2 operator*(F k, V2 a) { return {k * a.x, k * a.y}; }
inline F dot(V2 a, V2 b) { return a.x * b.x + a.y * b.y; }
inline F crs(V2 a, V2 b) { return a.x * b.y - a.y * b.x; }
inline F len(V2 a) { return rt(dot(a, a)); }

struct Edge {        // directed: cell a on the left, from vertex v0 to v1 (-1: infinity)
  int a, b, v0, v1;
  bool primary, linear;
  bool operator<(const Edge& o) const { return std::tie(a, b, v0, v1, primary, linear) < std::tie(o.a, o.b, o.v0, o.v1, o.primary, o.linear); }
  bool operator==(const Edge& o) const { return std::tie(a, b, v0, v1, primary, linear) == std::tie(o.a, o.b, o.v0, o.v1, o.primary, o.linear); }
};

struct Model {
  std::vector<Site> st;
  std::vector<V2> vert;
  std::vector<F> rad;
  std::vector<std::vector<int>> touch;  // T(v) of each vertex
  std::vector<Edge> edges;              // both directions
  // per site
  struct G {
    bool seg;
    V2 p, q, n, t;
    F c, l;  // line n.v = c ; t unit direction, l length
  };
  std::vector<G> g;
  F eps;
  F unit;  // real coordinates = unit * model coordinates (a power of two)

  bool exact() const { return st.empty() || !st.back().seg; }
  int find(const Site& s) const {
    auto it = std::lower_bound(st.begin(), st.end(), s);
    return it == st.end() || !(*it == s) ? -1 : int(it - st.begin());
  }
  V2 foot(int i, V2 v) const {
    if (!g[i].seg) return g[i].p;
    return g[i].p + dot(v - g[i].p, g[i].t) * g[i].t;
  }
  F dist(int i, V2 v, bool* on = 0) const {
    const G& s = g[i];
    if (!s.seg) {
      if (on) *on = true;
      return len(v - s.p);
    }
    F u = dot(v - s.p, s.t);
    if (on) *on = u > -eps && u < s.l + eps;
    if (u < 0) return len(v - s.p);
    if (u > s.l) return len(v - s.q);
    return ab(dot(s.n, v) - s.c);
  }
  std::vector<int> T(V2 v, F* out = 0) const {
    std::vector<F> d(g.size());
    std::vector<char> on(g.size());
    F m = 1e300L;
    for (size_t i = 0; i < g.size(); ++i) {
      bool o;
      d[i] = dist(int(i), v, &o);
      on[i] = o;
      m = std::min(m, d[i]);
    }
    std::vector<int> r;
    for (size_t i = 0; i < g.size(); ++i)
      if (on[i] && d[i] < m + eps * 4) r.push_back(int(i));
    if (out) *out = m;
    return r;
  }
  struct Lin {
    F a, b, k, c;  // a x + b y + k r = c
  };
  void cand(V2 v, int i, int j, int k) {
    if (!(ab(v.x) < FAR && ab(v.y) < FAR)) return;
    F m;
    std::vector<int> t = T(v, &m);
    auto has = [&](int s) { return std::find(t.begin(), t.end(), s) != t.end(); };
    if (!has(i) || !has(j) || !has(k)) return;
    if (m < eps * 4) {  // on a site: the end point of segments
      int p = -1, s1 = -1, s2 = -1, ns = 0;
      for (int s : t)
        if (!g[s].seg)
          p = s;
        else {
          ++ns;
          (s1 < 0 ? s1 : s2) = s;
        }
      if (p < 0 || ns < 2) return;
      if (ns == 2 && ab(crs(g[s1].t, g[s2].t)) < 100 * TINY) return;  // collinear joint
      v = g[p].p;
    }
    for (size_t q = 0; q < vert.size(); ++q)
      if (len(vert[q] - v) < eps * 16) return;
    vert.push_back(v);
    rad.push_back(m);
    touch.push_back(t);
  }
  void solve(const std::vector<Lin>& L, int cone, int i, int j, int k) {
    if (L.size() == 3) {
      F D = 0, X = 0, Y = 0;
      auto det = [](const F m[3][3]) {
        return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) +
               m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
      };
      F A[3][3], B[3][3], C[3][3];
      for (int r = 0; r < 3; ++r) {
        F row[4] = {L[r].a, L[r].b, L[r].k, L[r].c};
        for (int q = 0; q < 3; ++q) A[r][q] = B[r][q] = C[r][q] = row[q];
        B[r][0] = row[3];
        C[r][1] = row[3];
      }
      D = det(A);
      X = det(B);
      Y = det(C);
      if (ab(D) < TINY) return;
      cand(V2{X / D, Y / D}, i, j, k);
      return;
    }
    // two linear equations and the cone |v-p| = r
    const Lin &u = L[0], &w = L[1];
    F d[3] = {u.b * w.k - u.k * w.b, u.k * w.a - u.a * w.k, u.a * w.b - u.b * w.a};
    F n = rt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
    if (n < TINY) return;
    // particular solution: drop the coordinate of the largest direction part
    int z = ab(d[0]) >= ab(d[1]) ? (ab(d[0]) >= ab(d[2]) ? 0 : 2) : (ab(d[1]) >= ab(d[2]) ? 1 : 2);
    int p = (z + 1) % 3, q = (z + 2) % 3;
    F U[3] = {u.a, u.b, u.k}, W[3] = {w.a, w.b, w.k};
    F D = U[p] * W[q] - U[q] * W[p];
    F s0[3] = {0, 0, 0};
    s0[p] = (u.c * W[q] - U[q] * w.c) / D;
    s0[q] = (U[p] * w.c - u.c * W[p]) / D;
    for (int r = 0; r < 3; ++r) d[r] /= n;
    // (x0+t dx - px)^2 + (y0+t dy-py)^2 = (r0 + t dr)^2
    F ex = s0[0] - g[cone].p.x, ey = s0[1] - g[cone].p.y;
    F A = d[0] * d[0] + d[1] * d[1] - d[2] * d[2];
    F B = ex * d[0] + ey * d[1] - s0[2] * d[2];
    F C = ex * ex + ey * ey - s0[2] * s0[2];
    auto put = [&](F t) { cand(V2{s0[0] + t * d[0], s0[1] + t * d[1]}, i, j, k); };
    if (ab(A) < 10 * TINY) {
      if (ab(B) > TINY) put(-C / (2 * B));
      return;
    }
    F Q = B * B - A * C;
    if (Q < 0) {
      if (Q > -10 * TINY * (B * B + ab(A * C) + 1)) put(-B / A);
      return;
    }
    Q = rt(Q);
    F h = B > 0 ? -B - Q : -B + Q;  // stable pair of roots
    put(h / A);
    if (ab(h) > 0) put(C / h);
  }
  // is point site p on the line of segment site s
  bool onLine(int p, int s) const {
    const Site &a = st[p], &b = st[s];
    return cross(b.x1 - b.x0, b.y1 - b.y0, a.x0 - b.x0, a.y0 - b.y0) == 0;
  }
  bool endOf(int p, int s) const {
    const Site &a = st[p], &b = st[s];
    return (a.x0 == b.x0 && a.y0 == b.y0) || (a.x0 == b.x1 && a.y0 == b.y1);
  }
  void triple(int i, int j, int k) {
    int s[3] = {i, j, k}, np = 0;  // points come first in st order
    for (int q = 0; q < 3; ++q) np += !g[s[q]].seg;
    std::sort(s, s + 3, [&](int a, int b) { return g[a].seg < g[b].seg; });
    int nl = 3 - np;
    for (int m = 0; m < (1 << nl); ++m) {
      std::vector<Lin> L;
      for (int q = 0; q < nl; ++q) {
        const G& e = g[s[np + q]];
        L.push_back(Lin{e.n.x, e.n.y, (m >> q & 1) ? F(1) : F(-1), e.c});
      }
      int cone = -1;
      for (int a = 0; a < np; ++a) {
        const G& e = g[s[a]];
        bool tang = false;
        for (int q = 0; q < nl && !tang; ++q)
          if (onLine(s[a], s[np + q])) {
            const G& f = g[s[np + q]];
            L.push_back(Lin{f.t.x, f.t.y, 0, dot(f.t, e.p)});
            tang = true;
          }
        if (tang) continue;
        if (cone < 0)
          cone = s[a];
        else {
          const G& f = g[cone];
          L.push_back(Lin{2 * (e.p.x - f.p.x), 2 * (e.p.y - f.p.y), 0, dot(e.p, e.p) - dot(f.p, f.p)});
        }
      }
      if (L.size() == 3 || (L.size() == 2 && cone >= 0)) solve(L, cone, i, j, k);
    }
  }
  // Point sites only: exact rational circumcentres with exact empty-circle
  // tests (coordinate differences below 2^30).
  void points() {
    typedef __int128 W;
    int n = int(st.size());
    std::set<std::vector<int>> seen;
    for (int i = 0; i < n; ++i)
      for (int j = i + 1; j < n; ++j)
        for (int k = j + 1; k < n; ++k) {
          ll bx = st[j].x0 - st[i].x0, by = st[j].y0 - st[i].y0, cx = st[k].x0 - st[i].x0, cy = st[k].y0 - st[i].y0;
          W D = W(bx) * cy - W(by) * cx;
          if (D == 0) continue;
          W b2 = W(bx) * bx + W(by) * by, c2 = W(cx) * cx + W(cy) * cy;
          W X = b2 * cy - c2 * by, Y = c2 * bx - b2 * cx;  // centre = (X, Y) / 2D
          if (D < 0) D = -D, X = -X, Y = -Y;
          std::vector<int> t;
          bool empty = true;
          for (int q = 0; q < n && empty; ++q) {
            ll dx = st[q].x0 - st[i].x0, dy = st[q].y0 - st[i].y0;
            W s = (W(dx) * dx + W(dy) * dy) * D - X * dx - Y * dy;  // > 0: outside
            if (s < 0) empty = false;
            if (s == 0) t.push_back(q);
          }
          if (!empty || !seen.insert(t).second) continue;
          vert.push_back(V2{F(2 * D * W(st[i].x0) + X) / F(2 * D) / unit, F(2 * D * W(st[i].y0) + Y) / F(2 * D) / unit});
          rad.push_back(len(vert.back() - g[i].p));
          touch.push_back(t);
        }
  }
  struct Branch {
    V2 o, d;        // straight: o + t d
    bool parab;     // parabola of point p and segment s with t = foot parameter
    int p, s;
    F lo, hi;       // parameter range (infinite: +-1e30)
    bool linear, primary;
  };
  V2 at(const Branch& b, F t) const {
    if (!b.parab) return b.o + t * b.d;
    const G &s = g[b.s], &p = g[b.p];
    V2 f = s.p + t * s.t;
    F h = dot(s.n, p.p) - s.c;  // signed distance of the point
    V2 w = p.p - f;
    // |f + r n' - p| = r along n' = sign(h) n :  |w|^2 = 2 r n'.w
    V2 n = (h > 0 ? F(1) : F(-1)) * s.n;
    F r = dot(w, w) / (2 * dot(n, w));
    return f + r * n;
  }
  bool param(const Branch& b, V2 v, F& t) const {
    t = b.parab ? dot(v - g[b.s].p, g[b.s].t) : dot(v - b.o, b.d);
    return len(at(b, t) - v) < eps * 64;
  }
  V2 tang(const Branch& b, F t) const {
    if (!b.parab) return b.d;
    F h = 1e-4L;
    V2 w = at(b, t + h) - at(b, t - h);
    return (1 / len(w)) * w;
  }
  void pair(int a, int b) {
    std::vector<Branch> br;
    const G &A = g[a], &B = g[b];
    const F INF = 1e30L;
    if (!A.seg && !B.seg) {
      V2 w = B.p - A.p;
      w = (1 / len(w)) * w;
      br.push_back({F(0.5) * (A.p + B.p), V2{-w.y, w.x}, false, 0, 0, -INF, INF, true, true});
    } else if (A.seg != B.seg) {
      int p = A.seg ? b : a, s = A.seg ? a : b;
      if (endOf(p, s))
        br.push_back({g[p].p, g[s].n, false, 0, 0, -INF, INF, true, false});
      else if (!onLine(p, s))
        br.push_back({V2{0, 0}, V2{0, 0}, true, p, s, 0, g[s].l, false, true});
    } else {
      const Site &x = st[a], &y = st[b];
      ll cr = cross(x.x1 - x.x0, x.y1 - x.y0, y.x1 - y.x0, y.y1 - y.y0);
      if (cr == 0) {
        if (cross(x.x1 - x.x0, x.y1 - x.y0, y.x0 - x.x0, y.y0 - x.y0) != 0) {
          F cb = dot(A.n, B.p);
          br.push_back({A.p + ((cb - A.c) / 2) * A.n, A.t, false, 0, 0, -INF, INF, true, true});
        }
      } else {
        F D = crs(A.n, B.n);
        V2 o{(A.c * B.n.y - B.c * A.n.y) / D, (A.n.x * B.c - B.n.x * A.c) / D};
        for (int q = 0; q < 2; ++q) {
          V2 d = q ? A.t + B.t : A.t - B.t;
          br.push_back({o, (1 / len(d)) * d, false, 0, 0, -INF, INF, true, true});
        }
      }
    }
    for (auto& k : br) {
      std::vector<std::pair<F, int>> ev;
      for (size_t v = 0; v < vert.size(); ++v) {
        const std::vector<int>& t = touch[v];
        if (!std::binary_search(t.begin(), t.end(), a) || !std::binary_search(t.begin(), t.end(), b)) continue;
        F u;
        if (param(k, vert[v], u)) ev.push_back({u, int(v)});
      }
      std::sort(ev.begin(), ev.end());
      for (size_t q = 0; q <= ev.size(); ++q) {
        F l = q ? ev[q - 1].first : k.lo, h = q < ev.size() ? ev[q].first : k.hi;
        if (h - l < EPS0 * 100) continue;
        F m;
        if (l == -INF && h == INF)
          m = F(0.3711L);
        else if (l == -INF)
          m = h - 1;
        else if (h == INF)
          m = l + 1;
        else
          m = (l + h) / 2;
        V2 c = at(k, m);
        std::vector<int> t = T(c);
        bool ha = false, hb = false, ok = true;
        int p = A.seg ? b : a;
        for (int s : t) {
          if (s == a)
            ha = true;
          else if (s == b)
            hb = true;
          else if (k.primary || !g[s].seg || !endOf(p, s))
            ok = false;
        }
        if (!ha || !hb || !ok) continue;
        V2 d = tang(k, m);
        V2 side;
        if (!k.primary) {
          int s = A.seg ? a : b;
          side = F(0.5) * (g[s].p + g[s].q) - g[p].p;
          if (s == b) side = F(-1) * side;
        } else
          side = foot(a, c) - foot(b, c);
        int l0 = q ? ev[q - 1].second : -1, h0 = q < ev.size() ? ev[q].second : -1;
        bool left = crs(d, side) > 0;
        int x = left ? a : b, y = left ? b : a;
        edges.push_back({x, y, l0, h0, k.primary, k.linear});
        edges.push_back({y, x, h0, l0, k.primary, k.linear});
      }
    }
  }
  void build(const std::vector<Obj>& in, F u = 1, F e = EPS0) {
    eps = e;
    unit = u;
    st = vor::sites(in);
    g.resize(st.size());
    for (size_t i = 0; i < st.size(); ++i) {
      const Site& s = st[i];
      G& k = g[i];
      k.seg = s.seg;
      k.p = V2{F(s.x0) / u, F(s.y0) / u};
      k.q = V2{F(s.x1) / u, F(s.y1) / u};
      if (s.seg) {
        k.l = len(k.q - k.p);
        k.t = (1 / k.l) * (k.q - k.p);
        k.n = V2{-k.t.y, k.t.x};
        k.c = F(cross(s.x1 - s.x0, s.y1 - s.y0, -s.x0, -s.y0)) / (u * u) / -k.l;
      }
    }
    int n = int(st.size());
    if (n && !st.back().seg) {
      points();
    } else {
      for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j)
          for (int k = j + 1; k < n; ++k) triple(i, j, k);
    }
    for (int i = 0; i < n; ++i)
      for (int j = i + 1; j < n; ++j) pair(i, j);
    std::sort(edges.begin(), edges.end());
  }
};

typedef boost::polygon::voronoi_builder<int> Builder;
typedef boost::polygon::voronoi_diagram<double> Diagram;

template <class B>
void feed(B& b, const std::vector<Obj>& in) {
  for (auto& o : in) {
    if (o.seg)
      b.insert_segment(int(o.x0), int(o.y0), int(o.x1), int(o.y1));
    else
      b.insert_point(int(o.x0), int(o.y0));
  }
}

// The site a cell names: through its source index and category.
template <class C>
bool named(const C& c, const std::vector<Obj>& in, Site& s, std::string& why) {
  using namespace boost::polygon;
  if (c.source_index() >= in.size()) {
    why = "source index " + std::to_string(c.source_index()) + " out of range";
    return false;
  }
  const Obj& o = in[c.source_index()];
  bool rev = std::tie(o.x1, o.y1) < std::tie(o.x0, o.y0);
  why = "category " + std::to_string(int(c.source_category())) + " does not fit the input object " + str(o);
  bool degenerate = o.seg && o.x0 == o.x1 && o.y0 == o.y1;
  switch (c.source_category()) {
    case SOURCE_CATEGORY_SINGLE_POINT: s = pt(o.x0, o.y0); if (o.seg) return false; break;
    case SOURCE_CATEGORY_SEGMENT_START_POINT: s = pt(o.x0, o.y0); if (!o.seg) return false; break;
    case SOURCE_CATEGORY_SEGMENT_END_POINT: s = pt(o.x1, o.y1); if (!o.seg) return false; break;
    case SOURCE_CATEGORY_INITIAL_SEGMENT: s = norm(o); if (!o.seg || rev || degenerate) return false; break;
    case SOURCE_CATEGORY_REVERSE_SEGMENT: s = norm(o); if (!o.seg || !rev) return false; break;
    default: return false;
  }
  if (c.contains_point() == s.seg || c.contains_segment() != s.seg) {
    why = "contains_point/contains_segment disagree with the category";
    return false;
  }
  return true;
}
}  // namespace vor
#endif
