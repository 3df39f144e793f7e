// C05: a Manhattan polygon set represents the region its history built, whatever is asked in between.
#define RAS_OFF 32
#include "ras.hpp"
using namespace m90;
using namespace boost::polygon::operators;

namespace {
typedef bp::polygon_90_set_data<int> Set;
typedef bp::rectangle_data<int> Rect;

Ras rr(int x0, int y0, int x1, int y1) {
  Ras o;
  for (int y = y0; y < y1; ++y)
    for (int x = x0; x < x1; ++x) o.r[y + OFF] |= u64(1) << (x + OFF);
  return o;
}
void fits(const Ras& a) { mapLines(a, id, id); }
Ras touched(const Ras& a, const Ras& b) {
  Ras seed = andr(a, dilate(b, 1, 1, 1, 1));
  for (;;) {
    Ras n = andr(a, orr(dilate(seed, 1, 1, 0, 0), dilate(seed, 0, 0, 1, 1)));
    if (n == seed) return n;
    seed = n;
  }
}

struct State {
  Ras a, b;
  Ras ma, mb;  // cells whose insertion count may exceed one if nothing normalised the set in between
  void ins(const Ras& r) { ma = orr(ma, andr(a, r)); a = orr(a, r); }
  void insB(const Ras& r) { mb = orr(mb, andr(b, r)); b = orr(b, r); }
  void insHole(const Ras& r) {
    if (notr(r, notr(a, ma)).any()) throw Skip();  // only points inserted exactly once can be subtracted
    a = notr(a, r);
  }
  void normal(const Ras& r) { a = r; ma = Ras(); }
};
struct Op {
  const char* name;
  void (*model)(State&);
  void (*real)(Set&, Set&);
};
const Rect R1(0, 0, 4, 3), R2(2, -1, 5, 5), R3(1, 1, 2, 2), R4(-3, 1, 1, 6), R5(4, 3, 6, 4), R6(1, 0, 3, 3);
bp::polygon_90_with_holes_data<int> donut() {
  std::vector<bp::point_data<int> > o, h;
  int O[][2] = {{-4, -4}, {3, -4}, {3, 4}, {-4, 4}}, H[][2] = {{-2, -2}, {1, -2}, {1, 2}, {-2, 2}};
  for (auto& p : O) o.push_back(bp::point_data<int>(p[0], p[1]));
  for (auto& p : H) h.push_back(bp::point_data<int>(p[0], p[1]));
  bp::polygon_90_with_holes_data<int> r;
  bp::set_points(r, o.begin(), o.end());
  bp::polygon_90_data<int> hp;
  bp::set_points(hp, h.begin(), h.end());
  r.set_holes(&hp, &hp + 1);
  return r;
}
Ras donutR() { return notr(rr(-4, -4, 3, 4), rr(-2, -2, 1, 2)); }

const Op ops[] = {
    {"A.insert(R1)", [](State& s) { s.ins(rr(0, 0, 4, 3)); }, [](Set& A, Set&) { A.insert(R1); }},
    {"A.insert(R2)", [](State& s) { s.ins(rr(2, -1, 5, 5)); }, [](Set& A, Set&) { A.insert(R2); }},
    {"A.insert(R3,hole)", [](State& s) { s.insHole(rr(1, 1, 2, 2)); }, [](Set& A, Set&) { A.insert(R3, true); }},
    {"A-=B", [](State& s) { s.normal(notr(s.a, s.b)); }, [](Set& A, Set& B) { A -= B; }},
    {"A|=B", [](State& s) { s.ma = orr(s.ma, s.mb); s.ins(s.b); }, [](Set& A, Set& B) { A |= B; }},
    {"A^=B", [](State& s) { s.normal(xorr(s.a, s.b)); }, [](Set& A, Set& B) { A ^= B; }},
    {"A&=B", [](State& s) { s.normal(andr(s.a, s.b)); }, [](Set& A, Set& B) { A &= B; }},
    {"A.scale_down(2)", [](State& s) { auto f = [](int v) { return rnd(v / 2.0); }; s.a = mapLines(s.a, f, f); s.ma = mapLines(s.ma, f, f); }, [](Set& A, Set&) { A.scale_down(2); }},
    {"A.transform(rot)", [](State& s) { s.a = mapLines(swapXY(s.a), neg, id); s.ma = mapLines(swapXY(s.ma), neg, id); },
     [](Set& A, Set&) {
       bp::axis_transformation t;
       t.set_directions(bp::NORTH, bp::WEST);  // x axis -> north, y axis -> west
       A.transform(t);
     }},
    {"swap(A,B)", [](State& s) { std::swap(s.a, s.b); std::swap(s.ma, s.mb); }, [](Set& A, Set& B) { std::swap(A, B); }},
    {"A.move(3,-1)", [](State& s) { auto f = [](int v) { return v + 3; }; auto g = [](int v) { return v - 1; }; s.a = mapLines(s.a, f, g); s.ma = mapLines(s.ma, f, g); },
     [](Set& A, Set&) { A.move(3, -1); }},
    {"A.clear()", [](State& s) { s.normal(Ras()); }, [](Set& A, Set&) { A.clear(); }},
    // ---- the first 12 are the core alphabet of the deep histories
    {"A.insert(donut)", [](State& s) { s.ins(donutR()); }, [](Set& A, Set&) { A.insert(donut()); }},
    {"A.insert({R4,R5})", [](State& s) { s.ins(rr(-3, 1, 1, 6)); s.ins(rr(4, 3, 6, 4)); },
     [](Set& A, Set&) { std::vector<Rect> v; v.push_back(R4); v.push_back(R5); A.insert(v.begin(), v.end()); }},
    {"A.insert(B)", [](State& s) { s.ma = orr(s.ma, s.mb); s.ins(s.b); }, [](Set& A, Set& B) { A.insert(B); }},
    {"A.insert(A)", [](State& s) { s.ma = s.a; }, [](Set& A, Set&) { A.insert(A); }},
    {"B.insert(R6)", [](State& s) { s.insB(rr(1, 0, 3, 3)); }, [](Set&, Set& B) { B.insert(R6); }},
    {"A=B", [](State& s) { s.a = s.b; s.ma = s.mb; }, [](Set& A, Set& B) { A = B; }},
    {"B=A", [](State& s) { s.b = s.a; s.mb = s.ma; }, [](Set& A, Set& B) { B = A; }},
    {"A=R5", [](State& s) { s.normal(rr(4, 3, 6, 4)); }, [](Set& A, Set&) { A = R5; }},
    {"assign(A,B)", [](State& s) { s.a = s.b; s.ma = s.mb; }, [](Set& A, Set& B) { bp::assign(A, B); }},
    {"A=A; A|=A", [](State& s) { s.ma = s.a; }, [](Set& A, Set&) { A = *&A; A |= A; }},
    {"A-=A", [](State& s) { s.normal(Ras()); }, [](Set& A, Set&) { A -= A; }},
    {"A=B-A", [](State& s) { s.normal(notr(s.b, s.a)); }, [](Set& A, Set& B) { A = B - A; }},
    {"A=(A^B)|R3", [](State& s) { s.normal(orr(xorr(s.a, s.b), rr(1, 1, 2, 2))); }, [](Set& A, Set& B) { A = (A ^ B) | R3; }},
    {"A-=R6", [](State& s) { s.normal(notr(s.a, rr(1, 0, 3, 3))); }, [](Set& A, Set&) { A -= R6; }},
    {"A=Set(VERTICAL,A)", [](State&) {}, [](Set& A, Set&) { Set t(bp::VERTICAL, A); A = t; }},
    {"A=Set(HORIZONTAL,A)", [](State&) {}, [](Set& A, Set&) { A = Set(bp::HORIZONTAL, A); }},
    {"A.set(B.begin,B.end,B.orient)", [](State& s) { s.a = s.b; s.ma = s.mb; }, [](Set& A, Set& B) { A.set(B.begin(), B.end(), B.orient()); }},
    {"A.transform(flip x)", [](State& s) { s.a = mapLines(s.a, neg, id); s.ma = mapLines(s.ma, neg, id); },
     [](Set& A, Set&) { A.transform(bp::axis_transformation(bp::axis_transformation::FLIP_X)); }},
    {"A.transform(flip y)", [](State& s) { s.a = mapLines(s.a, id, neg); s.ma = mapLines(s.ma, id, neg); },
     [](Set& A, Set&) { A.transform(bp::axis_transformation(bp::axis_transformation::FLIP_Y)); }},
    {"A.transform(flip xy)", [](State& s) { s.a = mapLines(s.a, neg, neg); s.ma = mapLines(s.ma, neg, neg); },
     [](Set& A, Set&) { A.transform(bp::axis_transformation(bp::axis_transformation::FLIP_XY)); }},
    {"A.transform(flip swap xy)", [](State& s) { s.a = mapLines(swapXY(s.a), neg, neg); s.ma = mapLines(swapXY(s.ma), neg, neg); },
     [](Set& A, Set&) { A.transform(bp::axis_transformation(bp::axis_transformation::FLIP_SWAP_XY)); }},
    {"A.transform(south_east)", [](State& s) { s.a = mapLines(swapXY(s.a), id, neg); s.ma = mapLines(swapXY(s.ma), id, neg); },
     [](Set& A, Set&) { A.transform(bp::axis_transformation(bp::axis_transformation::SOUTH_EAST)); }},
    {"A.transform(swap xy)", [](State& s) { s.a = swapXY(s.a); s.ma = swapXY(s.ma); },
     [](Set& A, Set&) { A.transform(bp::axis_transformation(bp::axis_transformation::SWAP_XY)); }},
    {"A.scale_up(2)", [](State& s) { auto f = [](int v) { return v * 2; }; s.a = mapLines(s.a, f, f); s.ma = mapLines(s.ma, f, f); }, [](Set& A, Set&) { A.scale_up(2); }},
    {"A.scale(1/3,1)", [](State& s) { auto f = [](int v) { return rnd(v / 3.0); }; s.a = mapLines(s.a, f, id); s.ma = mapLines(s.ma, f, id); },
     [](Set& A, Set&) { A.scale(bp::anisotropic_scale_factor<double>(1.0 / 3, 1.0)); }},
    {"A.bloat(1,0,0,2)", [](State& s) { s.normal(dilate(s.a, 1, 0, 0, 2)); s.ma = s.a; fits(s.a); }, [](Set& A, Set&) { A.bloat(1, 0, 0, 2); }},
    {"A.shrink(0,1,1,0)", [](State& s) { s.normal(erode(s.a, 0, 1, 1, 0)); }, [](Set& A, Set&) { A.shrink(0, 1, 1, 0); }},
    {"A+=1", [](State& s) { s.normal(dilate(s.a, 1, 1, 1, 1)); s.ma = s.a; fits(s.a); }, [](Set& A, Set&) { A += 1; }},
    {"A=A-1", [](State& s) { s.normal(erode(s.a, 1, 1, 1, 1)); }, [](Set& A, Set&) { A = A - 1; }},
    {"A.interact(B)", [](State& s) { s.normal(touched(s.a, s.b)); }, [](Set& A, Set& B) { A.interact(B); }},
    {"read polygons, clear, insert them", [](State& s) { s.ma = Ras(); },
     [](Set& A, Set&) {
       std::vector<bp::polygon_90_with_holes_data<int> > v;
       A.get(v);
       A.clear();
       A.insert(v.begin(), v.end());
     }},
    {"free move/transform/scale_up", [](State& s) {
       auto f = [](int v) { return -2 * v; };
       auto g = [](int v) { return 2 * (v - 2); };
       s.a = mapLines(s.a, f, g);
       s.ma = mapLines(s.ma, f, g);
     },
     [](Set& A, Set&) {
       bp::move(A, bp::VERTICAL, -2);
       bp::transform(A, bp::axis_transformation(bp::axis_transformation::FLIP_X));
       bp::scale_up(A, 2);
     }},
};
const int NOPS = sizeof(ops) / sizeof(ops[0]), NCORE = 12;

const int NOBS = 5;
const char* obsName[NOBS] = {"", "?get", "?empty,size,==", "?extents,area", "?use as right operand"};
void observe(int k, Set& A, Set& B) {
  switch (k) {
    case 1: {
      std::vector<bp::polygon_90_data<int> > v;
      A.get(v);
      break;
    }
    case 2: {
      volatile bool x = A.empty();
      volatile std::size_t n = A.size();
      volatile bool e = A == B;
      (void)x, (void)n, (void)e;
      break;
    }
    case 3: {
      Rect e;
      A.extents(e);
      volatile long long a = bp::area(A);
      (void)a;
      break;
    }
    case 4: {
      Set C(bp::VERTICAL);
      C.insert(R5);
      C -= A;
      Set D(A ^ B);
      break;
    }
  }
}
void checkSet(const Set& S, const Ras& want, mc::Case& c, const char* nm, int rot) {
  bool any = want.any();
  long long ar = 0;
  int x0 = N, x1 = -1, y0 = N, y1 = -1;
  Set F(rot & 1 ? bp::VERTICAL : bp::HORIZONTAL);
  for (int y = 0; y < N; ++y)
    if (want.r[y]) {
      for (int x = 0; x < N; ++x)
        if ((want.r[y] >> x) & 1) {
          int e = x;
          while (e < N && ((want.r[y] >> e) & 1)) ++e;
          F.insert(Rect(x - OFF, y - OFF, e - OFF, y + 1 - OFF));
          ar += e - x;
          x0 = std::min(x0, x), x1 = std::max(x1, e);
          x = e;
        }
      y0 = std::min(y0, y), y1 = std::max(y1, y + 1);
    }
  for (int k = 0; k < 5; ++k) switch ((k + rot) % 5) {
      case 0: expectR<int>(S, want, c, std::string("final region of ") + nm); break;
      case 1:
        if (S.empty() != !any) c.fail("empty", std::string("empty() of ") + nm);
        break;
      case 2:
        if (!(S == F) || (S != F)) c.fail("equality", std::string(nm) + " is not equal to the set of its region");
        break;
      case 3: {
        Rect e;
        bool h = S.extents(e);
        if (h != any || (h && !(bp::xl(e) == x0 - OFF && bp::xh(e) == x1 - OFF && bp::yl(e) == y0 - OFF && bp::yh(e) == y1 - OFF))) c.fail("extents", std::string("extents of ") + nm);
        break;
      }
      case 4:
        if ((long long)bp::area(S) != ar) c.fail("area", std::string("area of ") + nm);
    }
  c.step(5);
}

// histories of length D over the first nops operations, nobs observers possible before each
void histories(mc::Engine& e, const std::string& nm, int D, int nops, int nobs, int ninit, int firstOps) {
  u64 n = ninit * u64(firstOps) * mc::ipow(nops, D - 1) * mc::ipow(nobs, D);
  e.add(nm, n, [=](u64 i, mc::Case& c) {
    mc::Digits d(i);
    int init = d.take(ninit);
    int o[8], q[8];
    for (int k = 0; k < D; ++k) q[k] = d.take(nobs);
    for (int k = 0; k < D; ++k) o[k] = d.take(k ? nops : firstOps);
    Set A(init & 1 ? bp::VERTICAL : bp::HORIZONTAL), B(init & 2 ? bp::VERTICAL : bp::HORIZONTAL);
    State s;
    B.insert(R1);
    B.insert(R4);
    s.insB(rr(0, 0, 4, 3));
    s.insB(rr(-3, 1, 1, 6));
    if (init & 4) {
      A.insert(R6);
      s.ins(rr(1, 0, 3, 3));
    }
    if (c.verbose) {
      std::string t = std::string(init & 1 ? "A:V" : "A:H") + (init & 2 ? " B:V" : " B:H") + " B={R1,R4}" + (init & 4 ? " A={R6}" : "");
      for (int k = 0; k < D; ++k) t += std::string("; ") + obsName[q[k]] + (q[k] ? " " : "") + ops[o[k]].name;
      c.input(t);
    }
    u64 h = 77;
    try {
      State t = s;
      for (int k = 0; k < D; ++k) ops[o[k]].model(t);
    } catch (Skip&) {
      return;
    }
    for (int k = 0; k < D; ++k) {
      observe(q[k], A, B);
      ops[o[k]].model(s);
      ops[o[k]].real(A, B);
      c.step();
    }
    checkSet(A, s.a, c, "A", int(i % 5 + o[D - 1]));
    checkSet(B, s.b, c, "B", int(i % 5 + o[D - 1] + 1));
    for (int y = 0; y < N; ++y) h = mc::mix(h, s.a.r[y]), h = mc::mix(h, s.b.r[y]);
    c.state(h);
    u64 hh = init;
    for (int k = 0; k < D; ++k) hh = hh * 64 + o[k], hh = hh * 8 + q[k];
    if (s.a.any() || s.b.any()) c.nontrivial(mc::mix(hh, D));
  });
}
}  // namespace

MC_REGISTER(e) {
  histories(e, "depth1/all", 1, NOPS, NOBS, 8, NOPS);
  histories(e, "depth2/all", 2, NOPS, NOBS, 8, NOPS);
  histories(e, "depth3/all/3obs", 3, NOPS, 3, 4, NOPS);
  histories(e, "depth4/core/2obs", 4, NCORE, 2, 4, NCORE);
  if (e.thorough()) {
    histories(e, "depth3/all/5obs", 3, NOPS, NOBS, 8, NOPS);
    histories(e, "depth4/all/2obs", 4, NOPS, 2, 2, NOPS);
    histories(e, "depth6/core", 6, NCORE, 2, 1, NCORE);
  }
}
