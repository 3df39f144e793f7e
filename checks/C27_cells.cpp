// C27: cells of the diagram against the input objects, for every sequence of
// objects (all orders, repetitions, segment directions) over small lattices and
// through every way of handing the input over.
#include "vorcmp.hpp"
#include "vorspace.hpp"
#include <boost/polygon/polygon.hpp>
#include <list>
using namespace vor;
namespace bp = boost::polygon;
namespace {
typedef bp::point_data<int> Pt;
typedef bp::segment_data<int> Sg;
Pt lo(const Obj& o) { return Pt(int(o.x0), int(o.y0)); }
Sg sg(const Obj& o) { return Sg(lo(o), Pt(int(o.x1), int(o.y1))); }

void check(const Diagram& d, const std::vector<Obj>& in, mc::Case& c, const std::string& desc) {
  std::vector<Site> st = sites(in);
  std::vector<int> id = cells(d, in, st, c, desc);
  // shared geometry must go to an object that has it, and end-point cells to
  // the right end (named() decides); the cell of a site is reached from its edges
  for (auto& e : d.edges()) {
    const auto* x = e.cell();
    c.step();
    if (x < &d.cells()[0] || x >= &d.cells()[0] + d.num_cells()) c.fail("edge-cell", desc);
  }
  if (st.size() == 1) {
    if (d.num_edges() || d.num_vertices() || !d.cells()[0].is_degenerate()) c.fail("single-site", desc);
  } else {
    // only a shared end point of segments that leave no free angle is degenerate
    for (auto& x : d.cells()) {
      const Site& s = st[id[&x - &d.cells()[0]]];
      bool want = false;
      if (!s.seg) {
        std::set<std::pair<ll, ll>> dir;
        for (auto& t : st) {
          if (!t.seg) continue;
          if (t.x0 == s.x0 && t.y0 == s.y0) dir.insert({t.x1 - s.x0, t.y1 - s.y0});
          if (t.x1 == s.x0 && t.y1 == s.y0) dir.insert({t.x0 - s.x0, t.y0 - s.y0});
        }
        // all gaps between neighbouring directions below a half turn
        want = dir.size() >= 3;
        for (auto& u : dir) {
          bool left = false;  // some direction strictly less than a half turn to the left
          for (auto& v : dir) left = left || cross(u.first, u.second, v.first, v.second) > 0;
          want = want && left;
        }
      }
      c.step();
      if (x.is_degenerate() != want) c.fail("degenerate", "cell of " + str(s) + (want ? " has edges" : " has no edges") + "; " + desc);
    }
  }
  c.nontrivial(hashObj(in));
}
void body(const std::vector<Obj>& in, mc::Case& c) {
  std::string desc = str(in);
  c.input(desc);
  if (!valid(in)) return;
  Builder b;
  size_t k = 0;
  bool ok = true;
  for (auto& o : in) {
    size_t r = (k & 1) ? (o.seg ? bp::insert(sg(o), &b) : bp::insert(lo(o), &b))
                       : (o.seg ? b.insert_segment(int(o.x0), int(o.y0), int(o.x1), int(o.y1)) : b.insert_point(int(o.x0), int(o.y0)));
    ok = ok && r == k++;
  }
  if (!ok) c.fail("index", "insert returned a wrong index; " + desc);
  Diagram d;
  b.construct(&d);
  check(d, in, c, desc);
}
void ranges(const std::vector<Obj>& in, mc::Case& c) {
  std::string desc = str(in);
  c.input(desc);
  std::list<Pt> ps;
  std::vector<Sg> ss;
  std::vector<Obj> po, so, all;
  for (auto& o : in) {
    if (o.seg) {
      ss.push_back(sg(o));
      so.push_back(o);
    } else {
      ps.push_back(lo(o));
      po.push_back(o);
    }
  }
  all = po;
  all.insert(all.end(), so.begin(), so.end());
  {
    Diagram d;
    bp::construct_voronoi(ps.begin(), ps.end(), ss.begin(), ss.end(), &d);
    check(d, all, c, "construct_voronoi(points, segments) " + desc);
  }
  if (!po.empty()) {
    Diagram d;
    bp::construct_voronoi(ps.begin(), ps.end(), &d);
    check(d, po, c, "construct_voronoi(points) " + desc);
  }
  if (!so.empty()) {
    Diagram d;
    bp::construct_voronoi(ss.begin(), ss.end(), &d);
    check(d, so, c, "construct_voronoi(segments) " + desc);
  }
  {
    Builder b;
    bp::insert(ss.begin(), ss.end(), &b);
    bp::insert(ps.begin(), ps.end(), &b);
    Diagram d;
    b.construct(&d);
    all = so;
    all.insert(all.end(), po.begin(), po.end());
    check(d, all, c, "insert(segments), insert(points) " + desc);
  }
}
// all sequences of n objects over the directed segments (zero length with
// `zero`) and points of a w x h lattice
void seqs(mc::Engine& e, int w, int h, int n, bool zero, const Emb* m) {
  std::vector<Obj> el;
  for (int i = 0; i < w * h; ++i)
    for (int j = 0; j < w * h; ++j)
      if (i != j || zero) el.push_back(S(i % w, i / w, j % w, j / w));
  for (int i = 0; i < w * h; ++i) el.push_back(P(i % w, i / w));
  Emb em = *m;
  e.add("seq" + std::to_string(n) + "-" + std::to_string(w) + "x" + std::to_string(h) + (zero ? "-zero-" : "-") + m->name, mc::ipow(el.size(), n), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    std::vector<Obj> in;
    for (int q = 0; q < n; ++q) in.push_back(el[d.take(unsigned(el.size()))]);
    body(embed(in, em), c);
  });
}
}
// every lattice point absent, a point, a zero-length segment, or several of both
void many(mc::Engine& e, int w, int h, int opts) {
  e.add("many-" + std::to_string(w) + "x" + std::to_string(h) + "-" + std::to_string(opts), mc::ipow(opts, w * h), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    std::vector<Obj> in;
    for (int q = 0; q < w * h; ++q) {
      int x = q % w, y = q / w;
      switch (d.take(opts)) {
        case 1: in.push_back(P(x, y)); break;
        case 2: in.push_back(S(x, y, x, y)); break;
        case 3: in.push_back(P(x, y)); in.push_back(S(x, y, x, y)); break;
        case 4: in.push_back(S(x, y, x, y)); in.push_back(S(x, y, x, y)); in.push_back(P(x, y)); break;
      }
    }
    body(in, c);
  });
}
MC_REGISTER(e) {
  const Emb* E = EMB;
  many(e, 3, 3, 4);
  many(e, 4, 2, 5);
  seqs(e, 2, 2, 1, true, E);
  seqs(e, 2, 2, 2, true, E);
  seqs(e, 2, 2, 3, true, E);
  seqs(e, 2, 2, 4, false, E);
  seqs(e, 3, 2, 3, false, E);
  seqs(e, 2, 3, 3, false, E);
  seqs(e, 3, 3, 2, true, E);
  seqs(e, 3, 3, 3, false, E);
  for (int k = 0; k < 2; ++k) {
    addSpace(e, "rng", 3, 3, 2, 1, E + k, ranges);
    addSpace(e, "rng", 3, 3, 1, 2, E + k, ranges);
    addSpace(e, "cell", 3, 3, 4, 0, E + k, body);
    addSpace(e, "cell", 3, 3, 3, 1, E + k, body);
    addSpace(e, "cell", 3, 3, 5, 0, E + k, body);
  }
  if (!e.thorough()) return;
  seqs(e, 2, 2, 5, false, E);
  seqs(e, 3, 3, 3, false, E + 1);
  seqs(e, 3, 3, 3, true, E + 3);
  seqs(e, 3, 2, 4, false, E);
  seqs(e, 2, 3, 4, false, E + 1);
  for (int k = 0; k < 4; ++k) {
    addSpace(e, "rng", 4, 4, 2, 1, E + k, ranges);
    addSpace(e, "cell", 3, 3, 6, 0, E + k, body);
    addSpace(e, "cell", 3, 3, 4, 1, E + k, body);
    addSpace(e, "cell", 4, 4, 3, 0, E + k, body);
  }
}
