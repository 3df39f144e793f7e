// Reference model for rectilinear regions: a W x H raster of unit cells whose
// grid lines are mapped to arbitrary increasing coordinates.
#ifndef VERIF_M90_HPP
#define VERIF_M90_HPP
#include "mc.hpp"
#include <algorithm>
#include <boost/polygon/polygon.hpp>
#include <limits>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace m90 {
namespace bp = boost::polygon;
typedef mc::u64 u64;
typedef u64 Mask;  // bit r*W+c = cell in column c, row r

template <class T>
struct Grid {
  int W, H;
  std::vector<T> xs, ys;
  const char* name;
  int xi(T x) const { return find(xs, x); }
  int yi(T y) const { return find(ys, y); }
  static int find(const std::vector<T>& v, T x) {
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i] == x) return int(i);
    return -1;
  }
  bool has(Mask m, int c, int r) const {
    return c >= 0 && r >= 0 && c < W && r < H && ((m >> (r * W + c)) & 1);
  }
  Mask full() const { return W * H >= 64 ? ~Mask(0) : (Mask(1) << (W * H)) - 1; }
  Mask rect(int x0, int y0, int x1, int y1) const {
    Mask m = 0;
    for (int r = y0; r < y1; ++r)
      for (int c = x0; c < x1; ++c) m |= Mask(1) << (r * W + c);
    return m;
  }
};

// embedding styles of grid lines
enum Emb { UNIT, SKEW, NEG, HUGE_, EMB_N };
template <class T>
Grid<T> grid(int W, int H, int emb) {
  Grid<T> g;
  g.W = W;
  g.H = H;
  static const char* names[] = {"unit", "skew", "neg", "huge"};
  g.name = names[emb];
  int n[2] = {W, H};
  for (int d = 0; d < 2; ++d) {
    std::vector<T>& v = d ? g.ys : g.xs;
    for (int i = 0; i <= n[d]; ++i) {
      switch (emb) {
        case UNIT: v.push_back(T(i)); break;
        case SKEW: {
          static const int a[2][9] = {{-3, -1, 0, 7, 8, 50, 51, 53, 60}, {-20, -19, 1, 2, 30, 33, 34, 40, 41}};
          v.push_back(T(a[d][i]));
          break;
        }
        case NEG: v.push_back(T(-100 + 10 * i - (i == 0 ? 7 : 0) - d)); break;
        case HUGE_: {
          // spans most of the type's range, neighbouring lines both close and far
          // polygon winding needs the area: keep widths*heights representable in long long
          T M = sizeof(T) > 4 ? T(1050000000) : T(std::numeric_limits<int>::max() / 2 - 1);
          static const int sel[] = {0, 1, 2, 3, 4, 5, 6, 7, 8};
          T c[9] = {T(-M), T(-M + 1), T(-M / 2), T(-1), T(0), T(M / 3), T(M / 2), T(M - 1), T(M)};
          // choose n+1 of the 9 spread over the list
          v.push_back(c[sel[i * 8 / n[d]]]);
          break;
        }
      }
    }
  }
  return g;
}

// general affine/offset embeddings by explicit coordinates
template <class T>
Grid<T> gridOf(std::vector<T> xs, std::vector<T> ys, const char* name = "explicit") {
  Grid<T> g;
  g.W = int(xs.size()) - 1;
  g.H = int(ys.size()) - 1;
  g.xs = xs;
  g.ys = ys;
  g.name = name;
  return g;
}

inline std::string show(Mask m, int W, int H) {
  std::string s;
  for (int r = H - 1; r >= 0; --r) {
    for (int c = 0; c < W; ++c) s += ((m >> (r * W + c)) & 1) ? '#' : '.';
    if (r) s += '/';
  }
  return s;
}

template <class T>
std::string str(T v) {
  std::ostringstream o;
  o << +v;
  return o.str();
}

template <class R>
std::string showRect(const R& r) {
  return "[" + str(bp::xl(r)) + "," + str(bp::xh(r)) + "]x[" + str(bp::yl(r)) + "," + str(bp::yh(r)) + "]";
}
template <class P>
std::string showPoly(const P& p) {
  std::string s = "(";
  for (auto it = bp::begin_points(p); it != bp::end_points(p); ++it)
    s += str((*it).x()) + "," + str((*it).y()) + " ";
  return s + ")";
}

// ---- reading results back -------------------------------------------------
// counts[cell] += number of rectangles covering it
template <class T, class Rects>
void addRects(const Grid<T>& g, const Rects& rs, std::vector<int>& cnt, mc::Case& c) {
  for (auto it = rs.begin(); it != rs.end(); ++it) {
    int x0 = g.xi(bp::xl(*it)), x1 = g.xi(bp::xh(*it)), y0 = g.yi(bp::yl(*it)), y1 = g.yi(bp::yh(*it));
    if (x0 < 0 || x1 < 0 || y0 < 0 || y1 < 0) c.fail("offgrid", "rectangle with a coordinate not in the input: " + showRect(*it));
    if (x0 >= x1 || y0 >= y1) c.fail("degenerate", "degenerate rectangle " + showRect(*it));
    for (int r = y0; r < y1; ++r)
      for (int q = x0; q < x1; ++q) cnt[r * g.W + q]++;
  }
}

template <class T>
struct Pt {
  T x, y;
};
template <class T, class P>
std::vector<Pt<T> > points(const P& p) {
  std::vector<Pt<T> > v;
  for (auto it = bp::begin_points(p); it != bp::end_points(p); ++it) {
    Pt<T> q = {(*it).x(), (*it).y()};
    v.push_back(q);
  }
  return v;
}
template <class T>
std::string showPts(const std::vector<Pt<T> >& v) {
  std::string s = "(";
  for (auto& p : v) s += str(p.x) + "," + str(p.y) + " ";
  return s + ")";
}

// adds the winding number of a rectilinear loop to cnt
template <class T>
void addLoop(const Grid<T>& g, std::vector<Pt<T> > v, std::vector<int>& cnt, mc::Case& c, int sign = 1) {
  if (v.size() > 1 && v.front().x == v.back().x && v.front().y == v.back().y) v.pop_back();
  if (v.size() < 4) c.fail("degenerate", "output polygon with fewer than 4 vertices: " + showPts(v));
  for (size_t i = 0; i < v.size(); ++i) {
    const Pt<T>&a = v[i], &b = v[(i + 1) % v.size()];
    if (a.x != b.x && a.y != b.y) c.fail("nonmanhattan", "non-manhattan edge in " + showPts(v));
    int ax = g.xi(a.x), ay = g.yi(a.y), by = g.yi(b.y);
    if (ax < 0 || ay < 0 || by < 0) c.fail("offgrid", "vertex not on input coordinates in " + showPts(v));
    if (a.x != b.x) continue;
    int s = by > ay ? 1 : -1;
    for (int r = std::min(ay, by); r < std::max(ay, by); ++r)
      for (int q = 0; q < ax; ++q) cnt[r * g.W + q] += s * sign;  // ray to the right
  }
}

template <class T>
Mask requireMask(const Grid<T>& g, const std::vector<int>& cnt, mc::Case& c, const char* what) {
  Mask m = 0;
  for (int i = 0; i < g.W * g.H; ++i) {
    if (cnt[i] != 0 && cnt[i] != 1)
      c.fail("overlap", std::string(what) + ": a cell is covered " + str(cnt[i]) + " times");
    if (cnt[i]) m |= Mask(1) << i;
  }
  return m;
}

template <class T>
Mask readRects(const Grid<T>& g, const std::vector<bp::rectangle_data<T> >& rs, mc::Case& c, const char* what) {
  std::vector<int> cnt(g.W * g.H, 0);
  addRects(g, rs, cnt, c);
  return requireMask(g, cnt, c, what);
}

template <class T, class Set>
Mask readSet(const Grid<T>& g, const Set& s, mc::Case& c, const char* what) {
  std::vector<bp::rectangle_data<T> > rs;
  bp::get_rectangles(rs, s);
  return readRects(g, rs, c, what);
}

template <class T>
void expect(const Grid<T>& g, Mask got, Mask want, mc::Case& c, const char* tag, const std::string& what) {
  if (got != want)
    c.fail(tag, what + ": got " + show(got, g.W, g.H) + " want " + show(want, g.W, g.H) + " (emb " + g.name + ")");
}

// ---- boundary tracing (to build polygon inputs) ---------------------------
struct Loop {
  std::vector<std::pair<int, int> > v;  // corner vertices, interior on the left
  int cell;                             // a region cell adjacent to the loop
  long area2;
};
// Loops of the region boundary, interior on the left. At a pinch vertex turn
// left (loops touch there, never cross).
inline std::vector<Loop> trace(Mask m, int W, int H) {
  auto in = [&](int c, int r) { return c >= 0 && r >= 0 && c < W && r < H && ((m >> (r * W + c)) & 1); };
  static const int dx[4] = {1, 0, -1, 0}, dy[4] = {0, 1, 0, -1};
  // directed unit edge from (x,y) in direction d has the region cell on its left
  // and a non-region cell on its right
  auto left = [&](int x, int y, int d, int& c, int& r) {
    static const int lx[4] = {0, -1, -1, 0}, ly[4] = {0, 0, -1, -1};
    c = x + lx[d];
    r = y + ly[d];
  };
  auto right = [&](int x, int y, int d, int& c, int& r) {
    static const int rx[4] = {0, 0, -1, -1}, ry[4] = {-1, 0, 0, -1};
    c = x + rx[d];
    r = y + ry[d];
  };
  auto isEdge = [&](int x, int y, int d) {
    int c, r, c2, r2;
    left(x, y, d, c, r);
    right(x, y, d, c2, r2);
    return in(c, r) && !in(c2, r2);
  };
  std::set<std::vector<int> > used;
  std::vector<Loop> out;
  for (int y = 0; y <= H; ++y)
    for (int x = 0; x <= W; ++x)
      for (int d = 0; d < 4; ++d) {
        if (!isEdge(x, y, d) || used.count({x, y, d})) continue;
        Loop L;
        int c, r;
        left(x, y, d, c, r);
        L.cell = r * W + c;
        int cx = x, cy = y, cd = d;
        std::vector<std::vector<int> > path;
        do {
          used.insert({cx, cy, cd});
          path.push_back({cx, cy, cd});
          cx += dx[cd];
          cy += dy[cd];
          int nd = -1;
          static const int turn[3] = {1, 0, 3};  // left, straight, right
          for (int t = 0; t < 3; ++t) {
            int k = (cd + turn[t]) % 4;
            if (isEdge(cx, cy, k)) {
              nd = k;
              break;
            }
          }
          cd = nd;
        } while (!(cx == x && cy == y && cd == d));
        for (size_t i = 0; i < path.size(); ++i) {
          size_t p = (i + path.size() - 1) % path.size();
          if (path[p][2] != path[i][2]) L.v.push_back(std::make_pair(path[i][0], path[i][1]));
        }
        long a = 0;
        for (size_t i = 0; i < L.v.size(); ++i) {
          auto &p = L.v[i], &q = L.v[(i + 1) % L.v.size()];
          a += long(p.first) * q.second - long(q.first) * p.second;
        }
        L.area2 = a;
        out.push_back(L);
      }
  return out;
}
// 4-connected component of each cell (-1 outside the region)
inline std::vector<int> components(Mask m, int W, int H, int* count = 0) {
  std::vector<int> comp(W * H, -1);
  int k = 0;
  for (int s = 0; s < W * H; ++s) {
    if (!((m >> s) & 1) || comp[s] >= 0) continue;
    std::vector<int> st(1, s);
    comp[s] = k;
    while (!st.empty()) {
      int q = st.back();
      st.pop_back();
      int c = q % W, r = q / W;
      int nb[4][2] = {{c + 1, r}, {c - 1, r}, {c, r + 1}, {c, r - 1}};
      for (auto& n : nb) {
        if (n[0] < 0 || n[1] < 0 || n[0] >= W || n[1] >= H) continue;
        int t = n[1] * W + n[0];
        if (((m >> t) & 1) && comp[t] < 0) {
          comp[t] = k;
          st.push_back(t);
        }
      }
    }
    ++k;
  }
  if (count) *count = k;
  return comp;
}
struct PolyIdx {
  std::vector<std::pair<int, int> > shell;
  std::vector<std::vector<std::pair<int, int> > > holes;
};
inline std::vector<PolyIdx> polygonsOf(Mask m, int W, int H) {
  int n = 0;
  std::vector<int> comp = components(m, W, H, &n);
  std::vector<PolyIdx> ps(n);
  std::vector<Loop> ls = trace(m, W, H);
  for (auto& l : ls) {
    PolyIdx& p = ps[comp[l.cell]];
    if (l.area2 > 0)
      p.shell = l.v;
    else
      p.holes.push_back(l.v);
  }
  return ps;
}

template <class T>
std::vector<bp::point_data<T> > mapPts(const Grid<T>& g, const std::vector<std::pair<int, int> >& v, bool rev = false, int rot = 0) {
  std::vector<bp::point_data<T> > o;
  for (size_t i = 0; i < v.size(); ++i) {
    auto& p = v[(i + rot) % v.size()];
    o.push_back(bp::point_data<T>(g.xs[p.first], g.ys[p.second]));
  }
  if (rev) std::reverse(o.begin(), o.end());
  return o;
}

// ---- insertion forms ------------------------------------------------------
enum Form { F_CELLS, F_RUNS, F_PWH, F_PWH_CW, F_HOLECELLS, F_P90, F_P45, F_N };
inline const char* formName(int f) {
  static const char* n[] = {"cells", "runs2x", "poly_with_holes", "poly_with_holes_cw", "rect_minus_cells", "poly90_wh", "poly45_wh"};
  return n[f];
}
template <class T>
bp::rectangle_data<T> mkRect(const Grid<T>& g, int x0, int y0, int x1, int y1) {
  return bp::rectangle_data<T>(g.xs[x0], g.ys[y0], g.xs[x1], g.ys[y1]);
}
// Inserts region m into a set object that has insert(geometry, is_hole)
template <class T, class Set>
void build(Set& s, const Grid<T>& g, Mask m, int form) {
  int W = g.W, H = g.H;
  switch (form) {
    case F_CELLS:
      for (int r = 0; r < H; ++r)
        for (int q = 0; q < W; ++q)
          if (g.has(m, q, r)) s.insert(mkRect(g, q, r, q + 1, r + 1));
      break;
    case F_RUNS:  // every cell twice: maximal row runs and maximal column runs
      for (int r = 0; r < H; ++r)
        for (int q = 0; q < W;) {
          if (!g.has(m, q, r)) {
            ++q;
            continue;
          }
          int e = q;
          while (g.has(m, e, r)) ++e;
          s.insert(mkRect(g, q, r, e, r + 1));
          q = e;
        }
      for (int q = W - 1; q >= 0; --q)
        for (int r = 0; r < H;) {
          if (!g.has(m, q, r)) {
            ++r;
            continue;
          }
          int e = r;
          while (g.has(m, q, e)) ++e;
          s.insert(mkRect(g, q, r, q + 1, e));
          r = e;
        }
      break;
    case F_PWH:
    case F_PWH_CW: {
      bool rev = form == F_PWH_CW;
      auto ps = polygonsOf(m, W, H);
      int k = 0;
      for (auto& p : ps) {
        bp::polygon_with_holes_data<T> q;
        auto v = mapPts(g, p.shell, rev, rev ? (++k) : 0);
        q.set(v.begin(), v.end());
        std::vector<bp::polygon_data<T> > hs;
        for (auto& h : p.holes) {
          auto hv = mapPts(g, h, rev);
          hs.push_back(bp::polygon_data<T>(hv.begin(), hv.end()));
        }
        q.set_holes(hs.begin(), hs.end());
        s.insert(bp::view_as<bp::polygon_90_with_holes_concept>(q));
      }
      break;
    }
    case F_HOLECELLS: {
      if (!m) break;
      s.insert(mkRect(g, 0, 0, W, H));
      for (int r = 0; r < H; ++r)
        for (int q = 0; q < W; ++q)
          if (!g.has(m, q, r)) s.insert(mkRect(g, q, r, q + 1, r + 1), true);
      break;
    }
    case F_P90: {
      auto ps = polygonsOf(m, W, H);
      for (auto& p : ps) {
        bp::polygon_90_with_holes_data<T> q;
        auto v = mapPts(g, p.shell, false, 1);
        bp::set_points(q, v.begin(), v.end());
        std::vector<bp::polygon_90_data<T> > hs;
        for (auto& h : p.holes) {
          auto hv = mapPts(g, h);
          bp::polygon_90_data<T> hp;
          bp::set_points(hp, hv.begin(), hv.end());
          hs.push_back(hp);
        }
        bp::set_holes(q, hs.begin(), hs.end());
        s.insert(q);
      }
      break;
    }
    case F_P45: {  // rectilinear polygon stored as a 45-degree polygon type
      auto ps = polygonsOf(m, W, H);
      for (auto& p : ps) {
        bp::polygon_45_with_holes_data<T> q;
        auto v = mapPts(g, p.shell, false, 2);
        q.set(v.begin(), v.end());
        std::vector<bp::polygon_45_data<T> > hs;
        for (auto& h : p.holes) {
          auto hv = mapPts(g, h, true);
          hs.push_back(bp::polygon_45_data<T>(hv.begin(), hv.end()));
        }
        q.set_holes(hs.begin(), hs.end());
        s.insert(bp::view_as<bp::polygon_90_with_holes_concept>(q));
      }
      break;
    }
  }
}

inline Mask opMask(int op, Mask a, Mask b) {
  return op == 0 ? (a | b) : op == 1 ? (a & b) : op == 2 ? (a & ~b) : (a ^ b);
}
inline const char* opName(int op) {
  static const char* n[] = {"+", "*", "-", "^"};
  return n[op];
}
inline u64 hashMask(u64 salt, Mask m) { return mc::mix(mc::mix(0x1234, salt), m); }

}  // namespace m90
#endif
