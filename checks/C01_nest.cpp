// C01, nested operator expressions over polygon set views.
#include "m90.hpp"
using namespace m90;
using namespace boost::polygon::operators;
namespace {
typedef int T;
typedef bp::polygon_90_set_data<T> Set;
typedef std::vector<bp::rectangle_data<T> > VR;

template <class X, class C>
void top(int op, Set& R, const X& x, const C& z) {
  switch (op) {
    case 0: R = x + z; break;
    case 1: R = x * z; break;
    case 2: R = x - z; break;
    default: R = x ^ z; break;
  }
}
template <class A, class B, class C>
void left(int o1, int o2, Set& R, const A& a, const B& b, const C& z) {
  switch (o1) {
    case 0: top(o2, R, a + b, z); break;
    case 1: top(o2, R, a * b, z); break;
    case 2: top(o2, R, a - b, z); break;
    default: top(o2, R, a ^ b, z); break;
  }
}
template <class A, class B, class C>
void right(int o1, int o2, Set& R, const A& a, const B& b, const C& z) {
  switch (o1) {
    case 0: top(o2, R, a, b + z); break;
    case 1: top(o2, R, a, b * z); break;
    case 2: top(o2, R, a, b - z); break;
    default: top(o2, R, a, b ^ z); break;
  }
}
}  // namespace

MC_REGISTER(e) {
  int W = e.thorough() ? 3 : 2, H = 2;
  Grid<T> g = grid<T>(W, H, SKEW);
  u64 n = u64(1) << (W * H);
  for (int kind = 0; kind < 3; ++kind)
    e.add("nested/" + str(kind), n * n * n, [=](u64 i, mc::Case& c) {
      Mask a = i % n, b = i / n % n, d = i / n / n;
      if (c.verbose)
        c.input("A=" + show(a, W, H) + " B=" + show(b, W, H) + " C=" + show(d, W, H) + " kind=" + str(kind));
      // kind 0: horizontal sets; 1: mixed orientation; 2: container operand
      bp::orientation_2d oa(kind == 1 ? bp::VERTICAL : bp::HORIZONTAL), ob(bp::HORIZONTAL), oc(kind == 1 ? bp::VERTICAL : bp::HORIZONTAL);
      Set A(oa), B(ob), C(oc);
      build(A, g, a, F_RUNS);
      build(B, g, b, F_PWH);
      build(C, g, d, F_HOLECELLS);
      VR vb;
      for (int r = 0; r < H; ++r)
        for (int q = 0; q < W; ++q)
          if (g.has(b, q, r)) vb.push_back(mkRect(g, q, r, q + 1, r + 1));
      for (int o1 = 0; o1 < 4; ++o1)
        for (int o2 = 0; o2 < 4; ++o2) {
          Set R1, R2;
          if (kind == 2) {
            left(o1, o2, R1, A, vb, C);
            right(o1, o2, R2, A, vb, C);
          } else {
            left(o1, o2, R1, A, B, C);
            right(o1, o2, R2, A, B, C);
          }
          expect(g, readSet(g, R1, c, "nested"), opMask(o2, opMask(o1, a, b), d), c, "wrong_region",
                 std::string("(A") + opName(o1) + "B)" + opName(o2) + "C");
          expect(g, readSet(g, R2, c, "nested"), opMask(o2, a, opMask(o1, b, d)), c, "wrong_region",
                 std::string("A") + opName(o2) + "(B" + opName(o1) + "C)");
          c.step(2);
        }
      // doubly nested both sides
      Set R3;
      R3 = (A - B) ^ (B - C);
      expect(g, readSet(g, R3, c, "nested"), (a & ~b) ^ (b & ~d), c, "wrong_region", "(A-B)^(B-C)");
      R3 = (A ^ C) * (B + C) - (A * B);
      expect(g, readSet(g, R3, c, "nested"), ((a ^ d) & (b | d)) & ~(a & b), c, "wrong_region", "(A^C)*(B+C)-(A*B)");
      c.step(2);
      c.state(mc::mix(hashMask(a, b), d));
      if (a && b && d) c.nontrivial(mc::mix(hashMask(a, b), mc::mix(kind, d)));
    });
}
