// C30: the diagram of every symmetric, scaled, moved or reordered image of an
// input equals the image of the (model) diagram.
#include "vorcmp.hpp"
#include "vorspace.hpp"
using namespace vor;
namespace {
const ll LIM = 2147483647LL;
struct KO { ll k, ox, oy; };
// Offsets are kept small against the feature size (scale 65537 at the ends of
// the int range, 1 at 2^20): the sweep orders events with a tolerance of 64 ulps
// at the magnitude of the coordinates, so unit features at 2^31 whose events are
// only 5e-5 apart are outside of what the library promises to tell apart.
// lattices are 0..3 (after the symmetry -3..3)
std::vector<KO> kos(int sym, int n) {  // n: largest lattice coordinate
  // lowest image coordinates of the lattice under the symmetry
  ll fx = (sym & 1) ? -n : 0, fy = (sym & 2) ? -n : 0;
  if (sym & 4) std::swap(fx, fy);
  ll kf = (2 * LIM + 1) / n;  // full range
  std::vector<KO> r = {{1, 0, 0},
                       {7, -5, 1000003},
                       {1, (1 << 20) - 1, -(1 << 20)},
                       {65537, LIM - 65537 * (n + fx), -LIM - 1 - 65537 * fy},
                       {65537, -LIM - 1 - 65537 * fx, LIM - 65537 * (n + fy)},
                       {kf, -LIM - 1 - kf * fx, -LIM - 1 - kf * fy},
                       {kf, LIM - kf * (n + fx), LIM - kf * (n + fy)},
                       {357913941, -(1 << 29), 99}};
  return r;
}
void run(const std::vector<Obj>& in, const Model& m, const Map& mp, const std::vector<int>& perm, mc::Case& c) {
  std::vector<Obj> w;
  for (int i : perm) w.push_back(in[i]);
  w = mp(w);
  std::string desc = str(w);
  c.input(desc);
  Builder b;
  feed(b, w);
  Diagram d;
  b.construct(&d);
  std::vector<int> cell = cells(d, w, m.st, c, desc, mp);
  std::vector<int> v = vertices(d, m, cell, c, desc, mp);
  edges(d, m, cell, v, c, desc, mp);
}
void symmetries(const std::vector<Obj>& in, int n, mc::Case& c) {
  Model m;
  m.build(in);
  std::vector<int> id(in.size());
  for (size_t i = 0; i < id.size(); ++i) id[i] = int(i);
  for (int s = 0; s < 8; ++s)
    for (auto& k : kos(s, n)) {
      Map mp;
      mp.sym = s;
      mp.k = k.k;
      mp.ox = k.ox;
      mp.oy = k.oy;
      run(in, m, mp, id, c);
    }
  if (!m.vert.empty()) c.nontrivial(hashObj(in));
}
void orders(const std::vector<Obj>& in, int, mc::Case& c) {
  Model m;
  m.build(in);
  std::vector<int> p(in.size());
  for (size_t i = 0; i < p.size(); ++i) p[i] = int(i);
  do {
    for (unsigned f = 0; f < (1u << in.size()); ++f) {  // segment directions
      std::vector<Obj> w = in;
      bool skip = false;
      for (size_t i = 0; i < w.size(); ++i)
        if (f >> i & 1) {
          if (!w[i].seg) skip = true;
          std::swap(w[i].x0, w[i].x1);
          std::swap(w[i].y0, w[i].y1);
        }
      if (!skip) run(w, m, Map(), p, c);
    }
  } while (std::next_permutation(p.begin(), p.end()));
  if (!m.vert.empty()) c.nontrivial(hashObj(in) + 1);
}
}
MC_REGISTER(e) {
  const Emb* E = EMB;
  auto sy = [](int n) { return [n](const std::vector<Obj>& in, mc::Case& c) { symmetries(in, n, c); }; };
  auto od = [](const std::vector<Obj>& in, mc::Case& c) { orders(in, 0, c); };
  addMasks(e, "sym", 3, 3, E, sy(2));
  addPick(e, "sym", 4, 4, 3, E, sy(3));
  addPick(e, "sym", 4, 4, 4, E, sy(3));
  addPick(e, "sym", 4, 4, 5, E, sy(3));
  addSpace(e, "sym", 4, 4, 1, 0, E, sy(3));
  addSpace(e, "sym", 4, 4, 1, 1, E, sy(3));
  addSpace(e, "sym", 4, 4, 2, 0, E, sy(3));
  addSpace(e, "sym", 3, 3, 1, 2, E, sy(2));
  addSpace(e, "sym", 3, 3, 2, 1, E, sy(2));
  addSpace(e, "sym", 3, 3, 3, 0, E, sy(2));
  addPick(e, "ord", 4, 4, 4, E, od);
  addPick(e, "ord", 3, 3, 5, E, od);
  addSpace(e, "ord", 4, 4, 1, 1, E, od);
  addSpace(e, "ord", 4, 4, 2, 0, E, od);
  addSpace(e, "ord", 3, 3, 1, 2, E, od);
  addSpace(e, "ord", 3, 3, 2, 1, E, od);
  addSpace(e, "ord", 3, 3, 3, 0, E, od);
  if (!e.thorough()) return;
  addMasks(e, "sym", 4, 4, E, sy(3));
  addSpace(e, "sym", 4, 4, 1, 2, E, sy(3));
  addSpace(e, "sym", 4, 4, 2, 1, E, sy(3));
  addSpace(e, "sym", 4, 4, 3, 0, E, sy(3));
  addSpace(e, "sym", 3, 3, 4, 0, E, sy(2));
  addSpace(e, "sym", 3, 3, 3, 1, E, sy(2));
  addPick(e, "ord", 4, 4, 5, E, od);
  addPick(e, "ord", 3, 3, 6, E, od);
  addSpace(e, "ord", 4, 4, 2, 1, E, od);
  addSpace(e, "ord", 3, 3, 4, 0, E, od);
  addSpace(e, "ord", 3, 3, 3, 1, E, od);
}
