// C15 (rectilinear): connectivity extraction reports exactly the touching pairs.
#include "m90.hpp"
using namespace m90;
namespace {
template <class T>
using S90 = bp::polygon_90_set_data<T>;
// cells and their eight neighbours
Mask grow(Mask m, int W, int H) {
  Mask r = 0;
  for (int y = 0; y < H; ++y)
    for (int x = 0; x < W; ++x)
      for (int dy = -1; dy <= 1; ++dy)
        for (int dx = -1; dx <= 1; ++dx) {
          int u = x + dx, v = y + dy;
          if (u >= 0 && v >= 0 && u < W && v < H && (m >> (v * W + u) & 1)) r |= Mask(1) << (y * W + x);
        }
  return r;
}
bool touch(Mask a, Mask b, int W, int H) { return (grow(a, W, H) & b) != 0; }
template <class T>
S90<T> mk(const Grid<T>& g, Mask m, unsigned v) {
  S90<T> s(v & 1 ? bp::VERTICAL : bp::HORIZONTAL);
  build(s, g, m, int(v / 4 % F_N));
  if (v & 2) bp::empty(s);
  return s;
}
template <class G>
void same(G& g, const std::vector<std::vector<char>>& want, mc::Case& c, const std::string& what) {
  size_t n = want.size();
  for (size_t i = 0; i < n; ++i) {
    std::set<int> w;
    for (size_t j = 0; j < n; ++j)
      if (i != j && want[i][j]) w.insert(int(j));
    const std::set<int>& got = g[int(i)];
    if (got == w) continue;
    std::string s;
    for (int k : got) s += " " + std::to_string(k);
    s += " want";
    for (int k : w) s += " " + std::to_string(k);
    bool extra = false;
    for (int k : got) extra |= !w.count(k);
    c.fail(extra ? "extra_edge" : "missing_edge", what + ": neighbours of node " + std::to_string(i) + ":" + s);
  }
}
template <class T>
void nodes(mc::Engine& e, const std::string& nm, int W, int H, int L, int emb) {
  Grid<T> g = grid<T>(W, H, emb);
  u64 nr = u64(1) << (W * H);
  e.add(nm, mc::ipow(nr, L), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    std::vector<Mask> m;
    std::string in;
    for (int l = 0; l < L; ++l) {
      m.push_back(d.take(nr));
      in += (l ? " ; " : "") + show(m[l], W, H);
    }
    c.input(in);
    unsigned v = unsigned(mc::mix(i, 3));
    bp::connectivity_extraction_90<T> ce;
    for (int l = 0; l < L; ++l) {
      unsigned id = ce.insert(mk(g, m[l], v >> (4 * l)));
      if (id != unsigned(l)) c.fail("node_id", "insertion " + std::to_string(l) + " returned " + std::to_string(id));
    }
    std::vector<std::vector<char>> w(L, std::vector<char>(L, 0));
    for (int a = 0; a < L; ++a)
      for (int b = 0; b < L; ++b) w[a][b] = touch(m[a], m[b], W, H);
    std::vector<std::set<int>> gr(L);
    ce.extract(gr);
    same(gr, w, c, "extract");
    c.step();
    if ((v >> 24) % 4 == 0) {
      std::map<int, std::set<int>> g2;
      bp::connectivity_extraction_90<T> c2(ce), c3;
      c3.insert(mk(g, 1, 0));
      c3 = c2;
      c3.extract(g2);
      same(g2, w, c, "second extraction, on a copy, into a map");
      // a further node touching everything
      unsigned id = c3.insert(mk(g, g.full(), v >> 8));
      if (id != unsigned(L)) c.fail("node_id", "insertion after extraction returned " + std::to_string(id));
      g2.clear();
      c3.extract(g2);
      auto w2 = w;
      w2.push_back(std::vector<char>(L + 1, 0));
      for (int a = 0; a < L; ++a) w2[a].push_back(m[a] != 0), w2[L][a] = m[a] != 0;
      same(g2, w2, c, "one more node");
      c.step(2);
    }
    c.nontrivial(i);
  });
}
// single geometry objects as nodes; any number of them
void objects(mc::Engine& e) {
  Grid<int> g = grid<int>(3, 3, SKEW);
  e.add("90-objects", 512 * 512, [=](u64 i, mc::Case& c) {
    Mask a = i % 512, b = i / 512;
    c.input(show(a, 3, 3) + " ; " + show(b, 3, 3));
    // every rectangle of a's decomposition and every polygon of b is a node
    std::vector<bp::rectangle_data<int>> rs;
    std::vector<bp::polygon_90_with_holes_data<int>> hs;
    bp::get_rectangles(rs, mk(g, a, unsigned(i)));
    mk(g, b, unsigned(i / 3)).get(hs);
    bp::connectivity_extraction_90<int> ce;
    std::vector<Mask> m;
    unsigned id = 0;
    for (auto& r : rs) {
      if (ce.insert(r) != id++) c.fail("node_id", "rectangle node id");
      m.push_back(readRects(g, std::vector<bp::rectangle_data<int>>(1, r), c, "rectangle"));
    }
    for (auto& h : hs) {
      if (ce.insert(h) != id++) c.fail("node_id", "polygon node id");
      S90<int> s;
      s.insert(h);
      m.push_back(readSet(g, s, c, "polygon"));
    }
    S90<int> none;
    if (ce.insert(none) != id++) c.fail("node_id", "empty node id");
    m.push_back(0);
    std::vector<std::vector<char>> w(m.size(), std::vector<char>(m.size(), 0));
    for (size_t p = 0; p < m.size(); ++p)
      for (size_t q = 0; q < m.size(); ++q) w[p][q] = touch(m[p], m[q], 3, 3);
    std::vector<std::set<int>> gr(m.size());
    ce.extract(gr);
    same(gr, w, c, "objects");
    c.step();
    c.nontrivial(i);
  });
}
// interact keeps exactly the polygons that touch the other set
void interacts(mc::Engine& e, const std::string& nm, int W, int H, int emb) {
  Grid<int> g = grid<int>(W, H, emb);
  u64 nr = u64(1) << (W * H);
  e.add(nm, nr * nr, [=](u64 i, mc::Case& c) {
    Mask a = i % nr, b = i / nr;
    c.input(show(a, W, H) + " ; " + show(b, W, H));
    unsigned v = unsigned(mc::mix(i, 3));
    S90<int> A = mk(g, a, v), B = mk(g, b, v >> 6), A2 = A;
    int n = 0;
    std::vector<int> comp = components(a, W, H, &n);
    Mask want = 0;
    for (int k = 0; k < n; ++k) {
      Mask m = 0;
      for (int q = 0; q < W * H; ++q)
        if (comp[q] == k) m |= Mask(1) << q;
      if (touch(m, b, W, H)) want |= m;
    }
    A.interact(B);
    expect(g, readSet(g, A, c, "interact"), want, c, "interact", "interact");
    bp::interact(A2, B);
    expect(g, readSet(g, A2, c, "interact"), want, c, "interact", "free interact");
    expect(g, readSet(g, B, c, "other"), b, c, "interact", "the other operand afterwards");
    c.step(2);
    c.nontrivial(i);
  });
}
}  // namespace
MC_REGISTER(e) {
  nodes<int>(e, "90-2nodes-3x3", 3, 3, 2, UNIT);
  nodes<int>(e, "90-3nodes-3x2", 3, 2, 3, HUGE_);
  nodes<int>(e, "90-4nodes-2x2", 2, 2, 4, SKEW);
  nodes<long long>(e, "90-3nodes-1x4-ll", 1, 4, 3, HUGE_);
  nodes<double>(e, "90-3nodes-4x1-double", 4, 1, 3, NEG);
  objects(e);
  interacts(e, "90-interact-3x3", 3, 3, SKEW);
  if (e.thorough()) {
    nodes<int>(e, "90-2nodes-4x3", 4, 3, 2, NEG);
    nodes<int>(e, "90-3nodes-2x3", 2, 3, 3, SKEW);
    nodes<int>(e, "90-4nodes-1x4", 1, 4, 4, SKEW);
    interacts(e, "90-interact-4x3", 4, 3, UNIT);
  }
}
