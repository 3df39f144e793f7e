// C14 (rectilinear): every point gets exactly its set of properties.
#include "m90.hpp"
using namespace m90;
using namespace boost::polygon::operators;
namespace {
template <class T>
using S90 = bp::polygon_90_set_data<T>;

template <class K>
std::vector<typename K::value_type> keyVec(const K& k) {
  return std::vector<typename K::value_type>(k.begin(), k.end());
}
// result == expected for labels props[i] covering masks[i]
template <class T, class Res, class Pr>
void check(const Grid<T>& g, const Res& res, const std::vector<Pr>& props, const std::vector<Mask>& masks, mc::Case& c, const std::string& what, bool polys = false) {
  size_t L = props.size();
  std::vector<Mask> want(size_t(1) << L, 0), got(size_t(1) << L, 0);
  for (int i = 0; i < g.W * g.H; ++i) {
    unsigned k = 0;
    for (size_t l = 0; l < L; ++l) k |= unsigned(masks[l] >> i & 1) << l;
    want[k] |= Mask(1) << i;
  }
  for (auto it = res.begin(); it != res.end(); ++it) {
    auto kv = keyVec(it->first);
    unsigned k = 0;
    for (auto& p : kv) {
      size_t l = std::find(props.begin(), props.end(), p) - props.begin();
      if (l == L) c.fail("foreign_key", what + ": result key has a property that was never inserted");
      if (k >> l & 1) c.fail("dup_key", what + ": property twice in a key");
      k |= 1u << l;
    }
    if (!k) c.fail("empty_key", what + ": empty key in the result");
    if (polys) {
      std::vector<bp::polygon_90_with_holes_data<T>> v;
      it->second.get(v);
      std::vector<int> cnt(g.W * g.H, 0);
      for (auto& p : v) {
        addLoop(g, points<T>(p), cnt, c);
        for (auto h = p.begin_holes(); h != p.end_holes(); ++h) addLoop(g, points<T>(*h), cnt, c);
      }
      got[k] = requireMask(g, cnt, c, what.c_str());
    } else
      got[k] = readSet(g, it->second, c, what.c_str());
  }
  for (unsigned k = 1; k < want.size(); ++k)
    if (got[k] != want[k]) c.fail(got[k] & ~want[k] ? "extra" : "missing", what + ": key " + std::to_string(k) + " got " + show(got[k], g.W, g.H) + " want " + show(want[k], g.W, g.H) + " emb " + g.name);
}
template <class T>
S90<T> mk(const Grid<T>& g, Mask m, unsigned v) {
  S90<T> s(v & 1 ? bp::VERTICAL : bp::HORIZONTAL);
  build(s, g, m, int(v / 4 % F_N));
  if (v & 2) bp::empty(s);  // cleans
  return s;
}
const int PV[4] = {7, -3, 100, 0};

// L labelled regions on W x H
template <class T>
void labels(mc::Engine& e, const std::string& nm, int W, int H, int L, int emb) {
  Grid<T> g = grid<T>(W, H, emb);
  u64 nr = u64(1) << (W * H), n = mc::ipow(nr, L);
  e.add(nm, n, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    std::vector<Mask> m;
    std::vector<int> pr;
    std::string in;
    for (int l = 0; l < L; ++l) {
      m.push_back(d.take(nr));
      pr.push_back(PV[l]);
      in += (l ? " ; " : "") + show(m[l], W, H);
    }
    c.input(in);
    unsigned v = unsigned(mc::mix(i, 3));
    bp::property_merge_90<T, int> pm;
    for (int l = 0; l < L; ++l) {
      int q = v & 1 ? L - 1 - l : l;
      pm.insert(mk(g, m[q], v >> (4 * l)), pr[q]);
    }
    std::map<std::set<int>, S90<T>> r;
    pm.merge(r);
    check(g, r, pr, m, c, "merge", v >> 20 & 1);
    c.step();
    if ((v >> 21) % 4 == 0) {
      std::map<std::vector<int>, S90<T>> r2;
      pm.merge(r2);
      check(g, r2, pr, m, c, "second merge into vector keys");
      c.step();
    }
    c.nontrivial(i);
  });
}
// the same property inserted several times; insertions whose own counts go
// beyond one or below zero
void repeats(mc::Engine& e, const std::string& nm, int W, int H) {
  Grid<int> g = grid<int>(W, H, SKEW);
  u64 nr = u64(1) << (W * H);
  e.add(nm, mc::ipow(nr, 4), [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    Mask a = d.take(nr), b = d.take(nr), t = d.take(nr), u = d.take(nr);
    c.input(show(a, W, H) + " minus " + show(b, W, H) + " ; " + show(t, W, H) + " ; " + show(u, W, H));
    unsigned v = unsigned(mc::mix(i, 5));
    auto cells = [&](S90<int>& s, Mask m, bool hole, int times) {
      for (int k = 0; k < times; ++k)
        for (int q = 0; q < W * H; ++q)
          if (m >> q & 1) s.insert(mkRect(g, q % W, q / W, q % W + 1, q / W + 1), hole);
    };
    S90<int> A(v & 64 ? bp::VERTICAL : bp::HORIZONTAL), B, C;
    cells(A, a, false, 1);
    cells(A, b, true, 1);
    cells(B, t, false, 1 + (v & 1));
    cells(C, u, false, 1);
    bp::property_merge_90<int, int> pm;
    Mask p0, p1;
    switch (v / 2 % 4) {
      case 0:
        pm.insert(A, 1);
        pm.insert(B, 1);
        pm.insert(C, 2);
        p0 = (a & ~b) | t;
        p1 = u;
        break;
      case 1:
        pm.insert(B, 1);
        pm.insert(C, 1);
        pm.insert(A, 2);
        p0 = t | u;
        p1 = a & ~b;
        break;
      case 2:
        pm.insert(C, 2);
        pm.insert(A, 1);
        pm.insert(B, 2);
        pm.insert(A, 1);
        p0 = a & ~b;
        p1 = t | u;
        break;
      default:
        pm.insert(C, 1);
        pm.insert(A, 2);
        pm.insert(B, 2);
        pm.insert(A, 1);
        p0 = u | (a & ~b);
        p1 = (a & ~b) | t;
    }
    std::map<std::set<int>, S90<int>> r;
    pm.merge(r);
    check(g, r, std::vector<int>{1, 2}, std::vector<Mask>{p0, p1}, c, "repeated insertion case " + std::to_string(v / 2 % 4));
    c.step();
    c.nontrivial(i);
  });
}
// every sequence of operations on mergers
void histories(mc::Engine& e, const std::string& nm, int depth) {
  Grid<int> g = grid<int>(3, 1, NEG);
  // 0..5 insert region k%3 with label k/3 ; 6 merge ; 7 copy-construct and continue on the copy ; 8 assign to a used merger ; 9 fresh
  const int K = 10;
  e.add(nm, mc::ipow(K, depth), [=](u64 i, mc::Case& c) {
    typedef bp::property_merge_90<int, std::string> PM;
    static const Mask R[3] = {3, 6, 2};
    mc::Digits d(i);
    PM pm;
    std::vector<Mask> m(2, 0);
    const std::vector<std::string> pr = {"zz", "a"};
    std::string in;
    for (int s = 0; s < depth; ++s) {
      int o = int(d.take(K));
      in += " " + std::to_string(o);
      if (o < 6) {
        if (s % 2) pm.insert(mkRect(g, R[o % 3] == 3 ? 0 : 1, 0, R[o % 3] == 6 ? 3 : 2, 1), pr[o / 3]);
        else pm.insert(mk(g, R[o % 3], unsigned(s)), pr[o / 3]);
        m[o / 3] |= R[o % 3];
      } else if (o == 7) {
        PM t(pm);
        pm = PM();
        pm = t;
      } else if (o == 8) {
        PM t;
        t.insert(mk(g, 7, 0), "other");
        std::map<std::set<std::string>, S90<int>> r;
        t.merge(r);
        t = pm;
        pm = t;
      } else if (o == 9) {
        pm = PM();
        m.assign(2, 0);
      }
      if (o == 6 || s + 1 == depth) {
        c.input(in);
        std::map<std::set<std::string>, S90<int>> r;
        pm.merge(r);
        check(g, r, pr, m, c, "history" + in);
        c.step();
      }
    }
    c.nontrivial(i);
  });
}
// geometry objects of every kind inserted directly
void kinds(mc::Engine& e) {
  Grid<int> g = grid<int>(3, 3, SKEW);
  e.add("kinds", 512 * 8, [=](u64 i, mc::Case& c) {
    Mask a = i % 512, b = Mask(mc::mix(i, 9) % 512);
    c.input(show(a, 3, 3) + " ; " + show(b, 3, 3));
    bp::property_merge_90<int, int> pm;
    S90<int> s = mk(g, a, unsigned(i));
    std::vector<bp::rectangle_data<int>> rs;
    std::vector<bp::polygon_90_with_holes_data<int>> hs;
    std::vector<bp::polygon_90_data<int>> ps;
    bp::get_rectangles(rs, s);
    s.get(hs);
    switch (i / 512) {
      case 0: for (auto& r : rs) pm.insert(r, 1); break;
      case 1: for (auto& h : hs) pm.insert(h, 1); break;
      case 2: s.get_polygons(ps); for (auto& p : ps) pm.insert(p, 1); break;
      case 3: { S90<int> t; t.insert(rs.begin(), rs.end()); t.insert(rs.begin(), rs.end()); pm.insert(t, 1); break; }
      case 4: { S90<int> t; bp::assign(t, hs); pm.insert(t, 1); break; }
      case 5: for (int k = 0; k < 2; ++k) for (auto& r : rs) pm.insert(r, 1); break;
      case 6: for (auto& h : hs) { bp::polygon_with_holes_data<int> w; bp::assign(w, h); pm.insert(bp::view_as<bp::polygon_90_with_holes_concept>(w), 1); } break;
      default: pm.insert(s, 1);
    }
    pm.insert(mk(g, b, unsigned(i / 8)), 0);
    std::map<std::vector<int>, S90<int>> r;
    pm.merge(r);
    check(g, r, std::vector<int>{1, 0}, std::vector<Mask>{a, b}, c, "kind " + std::to_string(i / 512), i & 1);
    // the results are ordinary sets: rebuild the operands from them
    S90<int> ra, rb;
    for (auto& kv : r)
      for (int p : kv.first) (p ? ra : rb) += kv.second;
    expect(g, readSet(g, ra, c, "rebuilt"), a, c, "rebuild", "union of the results with property 1");
    expect(g, readSet(g, rb, c, "rebuilt"), b, c, "rebuild", "union of the results with property 0");
    c.step();
    c.nontrivial(i);
  });
}
}  // namespace
MC_REGISTER(e) {
  labels<int>(e, "90-4labels-2x2", 2, 2, 4, SKEW);
  labels<int>(e, "90-2labels-3x3", 3, 3, 2, UNIT);
  labels<int>(e, "90-3labels-3x2", 3, 2, 3, HUGE_);
  labels<long long>(e, "90-4labels-1x3-ll", 1, 3, 4, HUGE_);
  labels<double>(e, "90-3labels-2x2-double", 2, 2, 3, NEG);
  repeats(e, "90-repeats-2x2", 2, 2);
  histories(e, "90-histories", 4);
  kinds(e);
  if (e.thorough()) {
    labels<int>(e, "90-5labels-2x2", 2, 2, 4, HUGE_);
    labels<int>(e, "90-3labels-2x3", 2, 3, 3, NEG);
    labels<int>(e, "90-2labels-4x3", 4, 3, 2, SKEW);
    labels<int>(e, "90-2labels-3x4", 3, 4, 2, SKEW);
    labels<long long>(e, "90-2labels-3x3-ll", 3, 3, 2, HUGE_);
    repeats(e, "90-repeats-3x1", 3, 1);
    repeats(e, "90-repeats-1x4", 1, 4);
    histories(e, "90-histories-6", 6);
  }
}
