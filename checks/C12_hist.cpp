// C12: 45-degree and arbitrary-angle sets represent the region their history
// built, whatever is asked in between: all sequences of operations up to a depth.
#include "arr45.hpp"
using namespace arr;
using namespace boost::polygon::operators;
namespace {
typedef bp::axis_transformation AT;
struct Skip {};
template <class Set>
struct Kind;
template <>
struct Kind<PS5> {
  typedef PD5 D;
  typedef PH5 H;
  static const int N = 3;
  static const bool only45 = true;
  static std::vector<Loop> loops() {
    return {Loop{P{0, 0}, P{2, 0}, P{0, 2}}, Loop{P{1, 1}, P{2, 0}, P{3, 1}, P{2, 2}}, Loop{P{0, 0}, P{1, 0}, P{1, 1}}, Loop{P{0, 1}, P{1, 2}, P{1, 3}, P{0, 3}}, Loop{P{1, 0}, P{3, 0}, P{3, 2}, P{1, 2}},
            Loop{P{0, 0}, P{3, 0}, P{3, 2}, P{2, 3}, P{0, 3}}, Loop{P{1, 1}, P{2, 1}, P{2, 2}}, Loop{P{0, 1}, P{1, 1}, P{1, 2}}};
  }
};
template <>
struct Kind<PS> {
  typedef PD D;
  typedef PH H;
  static const int N = 2;
  static const bool only45 = false;
  static std::vector<Loop> loops() {
    return {Loop{P{0, 0}, P{2, 0}, P{1, 2}}, Loop{P{0, 1}, P{2, 0}, P{1, 2}}, Loop{P{0, 0}, P{1, 0}, P{1, 1}}, Loop{P{0, 2}, P{0, 1}, P{2, 0}, P{2, 2}}, Loop{P{0, 0}, P{2, 0}, P{2, 1}, P{0, 1}},
            Loop{P{0, 0}, P{2, 0}, P{2, 2}, P{0, 2}}, Loop{P{1, 0}, P{2, 1}, P{1, 2}}, Loop{P{0, 0}, P{1, 1}, P{0, 1}}};
  }
};
template <class Set>
struct World {
  Arr A;
  std::vector<Loop> loop;
  std::vector<Mask> mask;
  std::map<i64, SP> sp;
  std::vector<std::vector<int>> perm;  // face permutations of the 8 transformations about the centre
  World() : A(Kind<Set>::N, Kind<Set>::N, Kind<Set>::only45), loop(Kind<Set>::loops()) {
    for (auto& l : loop) mask.push_back(A.mask(l));
    const i64 n = Kind<Set>::N;
    for (i64 f = 1; f <= 32; f *= 2) {
      if (n * A.S * f % 2) throw std::logic_error("odd centre");
      sp[f] = std::make_shared<Space>(A, Emb(f, -n * A.S * f / 2, -n * A.S * f / 2));
    }
    const Space& s = *sp[4];
    for (int k = 0; k < 8; ++k) {
      std::vector<int> pm;
      for (size_t f = 0; f < A.face.size(); ++f) {
        Loop l = faceLoop(s, f);
        for (auto& p : l) p = tr(k, p);
        int to = -1;
        for (size_t g = 0; g < s.smp.size(); ++g)
          if (wind(l, s.smp[g], s.mul)) to = int(g);
        if (to < 0) throw std::logic_error("lattice not symmetric");
        pm.push_back(to);
      }
      perm.push_back(pm);
    }
  }
  static P tr(int k, P p) {
    if (k & 1) p.x = -p.x;
    if (k & 2) p.y = -p.y;
    if (k & 4) std::swap(p.x, p.y);
    return p;
  }
  Mask map(int k, const Mask& m) const {
    Mask r;
    for (size_t f = 0; f < A.face.size(); ++f)
      if (m[f]) r[perm[k][f]] = 1;
    return r;
  }
};
template <class Set>
const World<Set>& world() {
  static World<Set> w;
  return w;
}
// ma: faces whose insertion count may exceed one if nothing normalised in between
struct One {
  Mask a, ma;
  i64 f = 4;
  void ins(const Mask& m) { ma |= a & m, a |= m; }
  void normal(const Mask& m) { a = m, ma.reset(); }
  void hole(const Mask& m) {
    if ((m & ~(a & ~ma)).any()) throw Skip();
    a &= ~m;
  }
};
struct State {
  One A, B;
  void same() const {
    if (A.f != B.f) throw Skip();
  }
};
template <class Set>
struct Op {
  std::string name;
  std::function<void(State&)> model;
  std::function<void(Set&, Set&, const State&)> real;  // the state before the operation
};
template <class Set>
typename Kind<Set>::D pol(int k, i64 f, bool rev = false) {
  Loop l = world<Set>().sp.at(f)->real(world<Set>().loop[k]);
  if (rev) std::reverse(l.begin(), l.end());
  return mkpoly<typename Kind<Set>::D>(l);
}
template <class Set>
bp::rectangle_data<int> rect(i64 f) {
  bp::rectangle_data<int> r;
  bp::extents(r, pol<Set>(4, f));
  return r;
}
void setRange(PS5& A, PS5& B) { A.set(B.begin(), B.end()); }
void setRange(PS& A, PS& B) { A.set(B.begin(), B.end()); }
template <class Set>
const std::vector<Op<Set>>& ops() {
  static std::vector<Op<Set>> v;
  if (!v.empty()) return v;
  typedef typename Kind<Set>::D D;
  typedef typename Kind<Set>::H H;
  static const World<Set>& w = world<Set>();
  static const std::vector<Mask>& M = w.mask;
  static const Mask donut = M[5] & ~M[6] & ~M[7];
  auto add = [&](const char* n, std::function<void(State&)> m, std::function<void(Set&, Set&, const State&)> r) { v.push_back(Op<Set>{n, m, r}); };
  auto mkDonut = [](i64 f) {
    H h = mkpoly<H>(w.sp.at(f)->real(w.loop[5]));
    std::vector<D> hs;
    hs.push_back(pol<Set>(6, f, true));
    hs.push_back(pol<Set>(7, f));
    bp::set_holes(h, hs.begin(), hs.end());
    return h;
  };
  add("A.insert(P0)", [](State& s) { s.A.ins(M[0]); }, [](Set& A, Set&, const State& s) { A.insert(pol<Set>(0, s.A.f)); });
  add("A.insert(P1)", [](State& s) { s.A.ins(M[1]); }, [](Set& A, Set&, const State& s) { A.insert(pol<Set>(1, s.A.f, true)); });
  add("A.insert(P2,hole)", [](State& s) { s.A.hole(M[2]); }, [](Set& A, Set&, const State& s) { A.insert(pol<Set>(2, s.A.f), true); });
  add("A-=B", [](State& s) { s.same(); s.A.normal(s.A.a & ~s.B.a); }, [](Set& A, Set& B, const State&) { A -= B; });
  add("A|=B", [](State& s) { s.same(); s.A.ma |= s.B.ma; s.A.ins(s.B.a); }, [](Set& A, Set& B, const State&) { A |= B; });
  add("A^=B", [](State& s) { s.same(); s.A.normal(s.A.a ^ s.B.a); }, [](Set& A, Set& B, const State&) { A ^= B; });
  add("A&=B", [](State& s) { s.same(); s.A.normal(s.A.a & s.B.a); }, [](Set& A, Set& B, const State&) { A &= B; });
  add("A.scale_down(2)", [](State& s) { if (s.A.f < 2) throw Skip(); s.A.f /= 2; }, [](Set& A, Set&, const State&) { A.scale_down(2); });
  add("A.transform(rot)", [](State& s) { s.A.a = w.map(5, s.A.a); s.A.ma = w.map(5, s.A.ma); }, [](Set& A, Set&, const State&) { A.transform(AT(AT::ATR(5))); });
  add("swap(A,B)", [](State& s) { std::swap(s.A, s.B); }, [](Set& A, Set& B, const State&) { std::swap(A, B); });
  add("A.insert(R)", [](State& s) { s.A.ins(M[4]); }, [](Set& A, Set&, const State& s) { A.insert(rect<Set>(s.A.f)); });
  add("A.clear()", [](State& s) { s.A.normal(Mask()); }, [](Set& A, Set&, const State&) { A.clear(); });
  // ---- the first 12 are the core alphabet of the deep histories
  add("A.insert(donut)", [](State& s) { s.A.ins(donut); }, [=](Set& A, Set&, const State& s) { A.insert(mkDonut(s.A.f)); });
  add("A.insert({P0,P3})", [](State& s) { s.A.ins(M[0]); s.A.ins(M[3]); },
      [](Set& A, Set&, const State& s) {
        std::vector<D> u;
        u.push_back(pol<Set>(0, s.A.f));
        u.push_back(pol<Set>(3, s.A.f, true));
        A.insert(u.begin(), u.end());
      });
  add("A.insert(B)", [](State& s) { s.same(); s.A.ma |= s.B.ma; s.A.ins(s.B.a); }, [](Set& A, Set& B, const State&) { A.insert(B); });
  add("A.insert(A)", [](State& s) { s.A.ma = s.A.a; }, [](Set& A, Set&, const State&) { A.insert(A); });
  add("B.insert(P1)", [](State& s) { s.B.ins(M[1]); }, [](Set&, Set& B, const State& s) { B.insert(pol<Set>(1, s.B.f)); });
  add("A=B", [](State& s) { s.A = s.B; }, [](Set& A, Set& B, const State&) { A = B; });
  add("B=A", [](State& s) { s.B = s.A; }, [](Set& A, Set& B, const State&) { B = A; });
  add("A=R", [](State& s) { s.A.normal(M[4]); }, [](Set& A, Set&, const State& s) { A = rect<Set>(s.A.f); });
  add("A=P3", [](State& s) { s.A.normal(M[3]); }, [](Set& A, Set&, const State& s) { A = pol<Set>(3, s.A.f); });
  add("A=donut", [](State& s) { s.A.normal(donut); }, [=](Set& A, Set&, const State& s) { A = mkDonut(s.A.f); });
  add("assign(A,B)", [](State& s) { s.A = s.B; }, [](Set& A, Set& B, const State&) { bp::assign(A, B); });
  add("A=A; A|=A", [](State& s) { s.A.ma = s.A.a; }, [](Set& A, Set&, const State&) { A = *&A; A |= A; });
  add("A-=A", [](State& s) { s.A.normal(Mask()); }, [](Set& A, Set&, const State&) { A -= A; });
  add("A^=A", [](State& s) { s.A.normal(Mask()); }, [](Set& A, Set&, const State&) { A ^= A; });
  add("A&=A", [](State& s) { s.A.normal(s.A.a); }, [](Set& A, Set&, const State&) { A &= A; });
  add("A=B-A", [](State& s) { s.same(); s.A.normal(s.B.a & ~s.A.a); }, [](Set& A, Set& B, const State&) { A = B - A; });
  add("A=(A^B)|P3", [](State& s) { s.same(); s.A.normal(s.A.a ^ s.B.a); s.A.ins(M[3]); }, [](Set& A, Set& B, const State& s) { A = (A ^ B) | pol<Set>(3, s.A.f); });
  add("A=A+B", [](State& s) { s.same(); s.A.ma |= s.B.ma; s.A.ins(s.B.a); }, [](Set& A, Set& B, const State&) { A = A + B; });
  add("A-=P2", [](State& s) { s.A.normal(s.A.a & ~M[2]); }, [](Set& A, Set&, const State& s) { A -= pol<Set>(2, s.A.f); });
  add("A&=R", [](State& s) { s.A.normal(s.A.a & M[4]); }, [](Set& A, Set&, const State& s) { A &= rect<Set>(s.A.f); });
  add("A^=90-set{R}", [](State& s) { s.A.normal(s.A.a ^ M[4]); },
      [](Set& A, Set&, const State& s) {
        bp::polygon_90_set_data<int> q(bp::VERTICAL);
        q.insert(rect<Set>(s.A.f));
        A ^= q;
      });
  add("A.insert(90-set{R})", [](State& s) { s.A.ins(M[4]); },
      [](Set& A, Set&, const State& s) {
        bp::polygon_90_set_data<int> q(bp::HORIZONTAL);
        q.insert(rect<Set>(s.A.f));
        A.insert(q);
      });
  add("A=Set(B)", [](State& s) { s.A = s.B; }, [](Set& A, Set& B, const State&) { Set t(B); A = t; });
  add("A.set(B.begin,B.end)", [](State& s) { s.A = s.B; }, [](Set& A, Set& B, const State&) { setRange(A, B); });
  add("A.set(B.value)", [](State& s) { s.A = s.B; }, [](Set& A, Set& B, const State&) { A.set(B.value()); });
  for (int k : {1, 2, 3, 4, 6, 7})
    add(("A.transform(" + std::to_string(k) + ")").c_str(), [=](State& s) { s.A.a = w.map(k, s.A.a); s.A.ma = w.map(k, s.A.ma); }, [=](Set& A, Set&, const State&) { A.transform(AT(AT::ATR(k))); });
  add("A.scale_up(2)", [](State& s) { if (s.A.f > 16) throw Skip(); s.A.f *= 2; }, [](Set& A, Set&, const State&) { A.scale_up(2); });
  add("B.scale_down(2)", [](State& s) { if (s.B.f < 2) throw Skip(); s.B.f /= 2; }, [](Set&, Set& B, const State&) { B.scale_down(2); });
  add("read polygons, clear, insert them", [](State& s) { s.A.ma.reset(); },
      [](Set& A, Set&, const State&) {
        std::vector<H> u;
        A.get(u);
        A.clear();
        A.insert(u.begin(), u.end());
      });
  add("read hole-free polygons, assign them", [](State& s) { s.A.ma = s.A.a; },
      [](Set& A, Set&, const State&) {
        std::vector<D> u;
        bp::assign(u, A);
        bp::assign(A, u);
      });
  add("free transform, scale_up, scale_down", [](State& s) { if (s.A.f > 16) throw Skip(); s.A.a = w.map(6, s.A.a); s.A.ma = w.map(6, s.A.ma); },
      [](Set& A, Set&, const State&) {
        bp::scale_up(A, 2);
        bp::transform(A, AT(AT::ATR(6)));
        bp::scale_down(A, 2);
      });
  return v;
}
const int NCORE = 12, NOBS = 6;
const char* obsName[NOBS] = {"", "?get", "?empty,size,==", "?extents,area", "?use as right operand", "?trapezoids"};
template <class Set>
void observe(int k, Set& A, Set& B) {
  switch (k) {
    case 1: {
      std::vector<typename Kind<Set>::D> v;
      A.get(v);
      break;
    }
    case 2: {
      volatile bool x = bp::empty(A);
      volatile std::size_t n = A.size();
      volatile bool e = A == B;
      (void)x, (void)n, (void)e;
      break;
    }
    case 3: {
      bp::rectangle_data<int> e;
      A.extents(e);
      volatile double a = bp::area(A);
      (void)a;
      break;
    }
    case 4: {
      Set C;
      C.insert(pol<Set>(3, 4));
      C -= A;
      Set D(A ^ B);
      break;
    }
    case 5: {
      std::vector<typename Kind<Set>::D> v;
      A.get_trapezoids(v, bp::HORIZONTAL);
      B.get_trapezoids(v);
      break;
    }
  }
}
template <class Set>
void checkSet(Set& S, const One& o, mc::Case& c, const char* nm, int rot) {
  const World<Set>& w = world<Set>();
  const Space& sp = *w.sp.at(o.f);
  for (int k = 0; k < 5; ++k) switch ((k + rot) % 5) {
      case 0: {
        std::vector<typename Kind<Set>::H> v;
        S.get(v);
        region(sp, readH(v), o.a, 0, c, std::string("final region of ") + nm);
        break;
      }
      case 1:
        if (bp::empty(S) != o.a.none()) c.fail("empty", std::string("empty() of ") + nm);
        break;
      case 2: {
        Set F;
        for (size_t f = 0; f < w.A.face.size(); ++f)
          if (o.a[f]) F.insert(mkpoly<typename Kind<Set>::D>(faceLoop(sp, f)));
        Set X;
        X = S ^ F;
        if (!bp::empty(X)) c.fail("equality", std::string(nm) + ": XOR with the set of its region is not empty");
        if (Kind<Set>::only45 && !(S == F)) c.fail("equality", std::string(nm) + " is not equal to the set of its region");
        break;
      }
      case 3: {
        bp::rectangle_data<int> e;
        bool h = S.extents(e);
        i64 x0 = INT64_MAX, x1 = INT64_MIN, y0 = x0, y1 = x1;
        for (size_t f = 0; f < w.A.face.size(); ++f)
          if (o.a[f])
            for (auto& p : faceLoop(sp, f)) x0 = std::min(x0, p.x), x1 = std::max(x1, p.x), y0 = std::min(y0, p.y), y1 = std::max(y1, p.y);
        if (h != o.a.any() || (h && !(bp::xl(e) == x0 && bp::xh(e) == x1 && bp::yl(e) == y0 && bp::yh(e) == y1))) c.fail("extents", std::string("extents of ") + nm);
        break;
      }
      case 4:
        if (double(bp::area(S)) != double(sp.area2(o.a)) / 2) c.fail("area", std::string("area of ") + nm);
    }
  c.step(5);
}
// histories of length D over the first nops operations, nobs observers before each
template <class Set>
void histories(mc::Engine& e, const std::string& nm, int D, int nops, int nobs, int ninit) {
  u64 n = ninit * mc::ipow(nops, D) * mc::ipow(nobs, D);
  e.add(nm, n, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    int init = d.take(ninit);
    int o[8], q[8];
    for (int k = 0; k < D; ++k) q[k] = d.take(nobs);
    for (int k = 0; k < D; ++k) o[k] = d.take(nops);
    const std::vector<Op<Set>>& op = ops<Set>();
    const std::vector<Mask>& M = world<Set>().mask;
    Set A, B;
    State s;
    B.insert(pol<Set>(0, 4));
    B.insert(pol<Set>(3, 4));
    s.B.ins(M[0]);
    s.B.ins(M[3]);
    if (init & 1) {
      A.insert(rect<Set>(4));
      s.A.ins(M[4]);
    }
    if (init & 2) {
      A.insert(pol<Set>(1, 4));
      s.A.ins(M[1]);
    }
    if (c.verbose) {
      std::string t = "B={P0,P3}";
      if (init & 1) t += " A+={R}";
      if (init & 2) t += " A+={P1}";
      for (int k = 0; k < D; ++k) t += std::string("; ") + obsName[q[k]] + (q[k] ? " " : "") + op[o[k]].name;
      c.input(t);
    }
    try {
      State t = s;
      for (int k = 0; k < D; ++k) op[o[k]].model(t);
    } catch (Skip&) {
      return;
    }
    for (int k = 0; k < D; ++k) {
      observe(q[k], A, B);
      op[o[k]].real(A, B, s);
      op[o[k]].model(s);
      c.step();
    }
    checkSet(A, s.A, c, "A", int(i % 5 + o[D - 1]));
    checkSet(B, s.B, c, "B", int(i % 5 + o[D - 1] + 1));
    u64 h = mc::mix(std::hash<Mask>()(s.A.a), std::hash<Mask>()(s.B.a));
    c.state(mc::mix(h, s.A.f * 64 + s.B.f));
    u64 hh = init;
    for (int k = 0; k < D; ++k) hh = hh * 64 + o[k], hh = hh * 8 + q[k];
    if (s.A.a.any() || s.B.a.any()) c.nontrivial(mc::mix(hh, D + (Kind<Set>::only45 ? 100 : 0)));
  });
}
template <class Set>
void all(mc::Engine& e, const std::string& nm) {
  int n = int(ops<Set>().size());
  histories<Set>(e, nm + "/depth1", 1, n, NOBS, 4);
  histories<Set>(e, nm + "/depth2", 2, n, NOBS, 4);
  histories<Set>(e, nm + "/depth3", 3, n, 1, 2);
  histories<Set>(e, nm + "/depth3/core", 3, NCORE, 3, 4);
  histories<Set>(e, nm + "/depth4/core", 4, NCORE, 1, 4);
  if (e.thorough()) {
    histories<Set>(e, nm + "/depth3/3obs", 3, n, 3, 2);
    histories<Set>(e, nm + "/depth5/core", 5, NCORE, 1, 4);
  }
}
}  // namespace
MC_REGISTER(e) {
  all<PS5>(e, "45");
  all<PS>(e, "arb");
}
