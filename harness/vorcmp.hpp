// Comparison of a library diagram with the reference model (vor.hpp).
#ifndef VERIF_VORCMP_HPP
#define VERIF_VORCMP_HPP
#include "vor.hpp"
namespace vor {

inline std::string num(F v) {
  char b[64];
  snprintf(b, sizeof b, "%.18Lg", (long double)v);
  return b;
}
// --- pure structure (no geometry) -------------------------------------------
template <class D>
void structure(const D& d, mc::Case& c, const std::string& in) {
  typedef typename D::edge_type E;
  auto req = [&](bool ok, const char* tag) {
    c.step();
    if (!ok) c.fail(tag, std::string(tag) + ": " + in);
  };
  size_t ne = d.num_edges(), nv = d.num_vertices(), nc = d.num_cells();
  req(ne == d.edges().size() && nv == d.vertices().size() && nc == d.cells().size(), "counts");
  auto eIn = [&](const E* e) { return e && ne && e >= &d.edges()[0] && e < &d.edges()[0] + ne; };
  auto vIn = [&](const typename D::vertex_type* v) { return nv && v >= &d.vertices()[0] && v < &d.vertices()[0] + nv; };
  auto cIn = [&](const typename D::cell_type* x) { return nc && x >= &d.cells()[0] && x < &d.cells()[0] + nc; };
  req(ne % 2 == 0, "odd-edges");
  for (auto& e : d.edges()) {
    req(eIn(e.twin()) && e.twin() != &e && e.twin()->twin() == &e, "twin");
    req(cIn(e.cell()), "edge-cell");
    req(e.cell() != e.twin()->cell(), "cell-both-sides");
    req(eIn(e.next()) && eIn(e.prev()), "next-prev-missing");
    req(e.next()->prev() == &e && e.prev()->next() == &e, "next-prev-inverse");
    req(e.next()->cell() == e.cell() && e.prev()->cell() == e.cell(), "next-cell");
    req(!e.vertex0() || vIn(e.vertex0()), "vertex-range");
    req(e.vertex1() == e.twin()->vertex0(), "vertex1");
    req(e.vertex1() == e.next()->vertex0(), "next-vertex");
    req(e.is_finite() == (e.vertex0() && e.vertex1()) && e.is_infinite() == !e.is_finite(), "finite-flag");
    req(e.is_linear() != e.is_curved() && e.is_primary() != e.is_secondary(), "flags");
    req(e.is_linear() == e.twin()->is_linear() && e.is_primary() == e.twin()->is_primary(), "twin-flags");
    req(!e.is_finite() || e.vertex0() != e.vertex1(), "loop-edge");
    if (e.vertex0()) {
      req(e.rot_next() == e.prev()->twin() && e.rot_prev() == e.twin()->next(), "rot-definition");
      req(e.rot_next()->rot_prev() == &e && e.rot_prev()->rot_next() == &e, "rot-inverse");
      req(e.rot_next()->vertex0() == e.vertex0() && e.rot_prev()->vertex0() == e.vertex0(), "rot-vertex");
    }
  }
  // cycles around cells and vertices reach all their edges
  std::map<const void*, size_t> ofCell, ofVertex;
  for (auto& e : d.edges()) {
    ++ofCell[e.cell()];
    if (e.vertex0()) ++ofVertex[e.vertex0()];
  }
  size_t live = 0;
  bool lines = nv == 0;
  for (auto& x : d.cells()) {
    req(x.is_degenerate() == (x.incident_edge() == 0), "degenerate-flag");
    req((ofCell.count(&x) == 0) == x.is_degenerate(), "degenerate-edges");
    if (x.is_degenerate()) continue;
    ++live;
    req(eIn(x.incident_edge()) && x.incident_edge()->cell() == &x, "incident-edge");
    size_t k = 0;
    const E* e = x.incident_edge();
    do {
      ++k;
      e = e->next();
    } while (e != x.incident_edge() && k <= ne);
    req(k == ofCell[&x], "cell-cycle");
    size_t inf = 0;
    e = x.incident_edge();
    for (size_t q = 0; q < k; ++q, e = e->next()) inf += !e->vertex0() + !e->vertex1();
    req(lines ? inf == 2 * k && k <= 2 : inf == 0 || inf == 2, "cell-open-chain");
  }
  for (auto& v : d.vertices()) {
    req(!v.is_degenerate() && eIn(v.incident_edge()) && v.incident_edge()->vertex0() == &v, "vertex-incident");
    size_t k = 0;
    const E* e = v.incident_edge();
    do {
      ++k;
      e = e->rot_next();
    } while (e != v.incident_edge() && k <= ne);
    req(k == ofVertex[&v], "vertex-cycle");
    req(k >= 3, "vertex-degree");
  }
  if (ne) {
    // all rays meet in one vertex at infinity: V + 1 - E + F = 2
    c.step();
    if (nv + 1 + live != ne / 2 + 2)
      c.fail("euler", "euler: V=" + std::to_string(nv) + " E=" + std::to_string(ne / 2) + " F=" + std::to_string(live) + " " + in);
  }
}

// --- cells against the input -------------------------------------------------
template <class D>
std::vector<int> cells(const D& d, const std::vector<Obj>& in, const std::vector<Site>& st, mc::Case& c, const std::string& desc, const Map& mp = Map()) {
  std::vector<int> id;
  std::set<Site> seen;
  c.step(st.size());
  for (auto& x : d.cells()) {
    Site s;
    std::string why;
    if (!named(x, in, s, why)) c.fail("cell-source", "cell: " + why + "; " + desc);
    mp.inv(s.x0, s.y0);
    mp.inv(s.x1, s.y1);
    s = norm(Obj{s.seg, s.x0, s.y0, s.x1, s.y1});
    if (!seen.insert(s).second) c.fail("cell-twice", "two cells for site " + str(s) + "; " + desc);
    auto it = std::lower_bound(st.begin(), st.end(), s);
    if (it == st.end() || !(*it == s)) c.fail("cell-source", "cell names " + str(s) + ", which is no site; " + desc);
    id.push_back(int(it - st.begin()));
  }
  if (seen.size() != st.size())
    c.fail("cell-count", "cells: got " + std::to_string(seen.size()) + " want " + std::to_string(st.size()) + "; " + desc);
  return id;
}

// --- vertices ----------------------------------------------------------------
// Returns for each library vertex the model vertex.
template <class D>
std::vector<int> vertices(const D& d, const Model& m, const std::vector<int>& cell, mc::Case& c, const std::string& desc, const Map& mp = Map(), F ulps = 64) {
  std::vector<int> id;
  std::set<int> used;
  c.step(m.vert.size() + d.num_vertices());
  std::vector<V2> mv = m.vert;
  F U = m.unit * F(mp.k);
  for (auto& w : mv) {
    w = m.unit * w;
    mp.fwd(w.x, w.y);
  }
  for (auto& v : d.vertices()) {
    V2 p{F(v.x()), F(v.y())};
    int best = -1;
    F bd = 1e300L;
    for (size_t i = 0; i < m.vert.size(); ++i) {
      F k = len(mv[i] - p);
      if (k < bd) bd = k, best = int(i);
    }
    std::string at = "(" + num(p.x) + "," + num(p.y) + ")";
    F tol = ulps * 2.220446049250313e-16L;
    if (best < 0) c.fail("vertex-extra", "vertex " + at + " though the model has none; " + desc);
    V2 w = mv[best];
    auto bad = [&](F a, F b) { return ab(a - b) > tol * ab(b) + (m.exact() ? 0 : U * (m.eps * 1e-5L + 10 * (TINY < 1e-20L ? F(1e-32L) : F(2e-20L)) * len(m.vert[best])));  };
    if (bad(p.x, w.x) || bad(p.y, w.y)) {
      if (bd < 1e-4L * U + 1e-6L * len(w)) c.fail("vertex-precision", "vertex " + at + " should be (" + num(w.x) + "," + num(w.y) + "); " + desc);
      c.fail("vertex-wrong", "vertex " + at + " is not equidistant from three nearest sites; " + desc);
    }
    if (!used.insert(best).second) c.fail("vertex-twice", "vertex " + at + " reported twice; " + desc);
    id.push_back(best);
    // the cells around it
    const auto* e = v.incident_edge();
    size_t k = 0;
    do {
      int s = cell[e->cell() - &d.cells()[0]];
      if (!std::binary_search(m.touch[best].begin(), m.touch[best].end(), s))
        c.fail("vertex-cell", "cell of " + str(m.st[s]) + " around " + at + " is not nearest there; " + desc);
      e = e->rot_next();
    } while (e != v.incident_edge() && ++k < 1000);
  }
  if (used.size() != m.vert.size()) {
    std::string miss;
    for (size_t i = 0; i < m.vert.size(); ++i)
      if (!used.count(int(i))) miss += "(" + num(mv[i].x) + "," + num(mv[i].y) + ") ";
    c.fail("vertex-missing", "no vertex at " + miss + "; " + desc);
  }
  return id;
}

// --- edges -------------------------------------------------------------------
template <class D>
std::vector<Edge> libEdges(const D& d, const std::vector<int>& cell, const std::vector<int>& vert) {
  std::vector<Edge> r;
  for (auto& e : d.edges()) {
    Edge x;
    x.a = cell[e.cell() - &d.cells()[0]];
    x.b = cell[e.twin()->cell() - &d.cells()[0]];
    x.v0 = e.vertex0() ? vert[e.vertex0() - &d.vertices()[0]] : -1;
    x.v1 = e.vertex1() ? vert[e.vertex1() - &d.vertices()[0]] : -1;
    x.primary = e.is_primary();
    x.linear = e.is_linear();
    r.push_back(x);
  }
  std::sort(r.begin(), r.end());
  return r;
}
inline std::string str(const Edge& e, const Model& m) {
  auto v = [&](int i) { return i < 0 ? std::string("inf") : "(" + num(m.vert[i].x) + "," + num(m.vert[i].y) + ")"; };
  return str(m.st[e.a]) + "|" + str(m.st[e.b]) + " " + v(e.v0) + "->" + v(e.v1) + (e.primary ? " primary" : " secondary") + (e.linear ? " linear" : " curved");
}
template <class D>
void edges(const D& d, const Model& m, const std::vector<int>& cell, const std::vector<int>& vert, mc::Case& c, const std::string& desc, const Map& mp = Map()) {
  std::vector<Edge> l = libEdges(d, cell, vert);
  if (mp.reflects()) {
    for (auto& e : l) std::swap(e.v0, e.v1);
    std::sort(l.begin(), l.end());
  }
  c.step(l.size());
  if (l == m.edges) return;
  std::vector<Edge> a, b;
  std::set_difference(l.begin(), l.end(), m.edges.begin(), m.edges.end(), std::back_inserter(a));
  std::set_difference(m.edges.begin(), m.edges.end(), l.begin(), l.end(), std::back_inserter(b));
  std::string s;
  for (auto& e : a) s += " extra: " + str(e, m);
  for (auto& e : b) s += " missing: " + str(e, m);
  c.fail(a.empty() ? "edge-missing" : b.empty() ? "edge-extra" : "edge-differs", "edges:" + s + "; " + desc);
}
}  // namespace vor
#endif
