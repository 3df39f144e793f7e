// Explicit-state / bounded-exhaustive exploration engine.
//
// A check registers families.  A family is a finite, totally ordered space of
// cases 0..n-1 (an input shape, or a whole operation sequence, decoded from the
// index) and a function that executes one case on the real library, comparing
// every step with a reference model.  The engine executes *every* index of
// every family, sharded over forked workers; a crash, an escaping exception, a
// memory blow-up or a hang in a case is attributed to the exact index.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

typedef std::uint64_t u64;

inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 32;
  return h;
}

enum Tier { QUICK = 0, THOROUGH = 1 };

struct Failure {
  std::string tag, msg;
};

// Handed to each case.
class Case {
 public:
  u64 idx;
  bool verbose;           // set on replay / sampling: describe the input then
  // Human-readable input of this case (kept even if the case then crashes).
  void input(const std::string& s);
  Case() : idx(0), verbose(false) {}
  // One distinct reference-model state visited (deduplicated globally by hash).
  void state(u64 h);
  // One step executed on the real code and compared with the model.
  void step(u64 n = 1);
  // This case exercised something: hash identifies the behaviour, used to
  // count distinct non-trivial cases.
  void nontrivial(u64 h);
  [[noreturn]] void fail(const std::string& tag, const std::string& msg) {
    throw Failure{tag, msg};
  }
  void require(bool ok, const char* tag, const std::string& msg = "") {
    if (!ok) fail(tag, msg);
  }
};

typedef std::function<void(u64, Case&)> CaseFn;

class Engine {
 public:
  Tier tier;
  struct Family {
    std::string name;
    u64 n;
    CaseFn fn;
    u64 chunk;
  };
  std::vector<Family> fams;
  bool thorough() const { return tier == THOROUGH; }
  void add(const std::string& name, u64 n, CaseFn fn, u64 chunk = 0) {
    fams.push_back(Family{name, n, fn, chunk});
  }
};

typedef void (*RegisterFn)(Engine&);
struct Reg {
  explicit Reg(RegisterFn f);
};

// Mixed-radix decoding of a case index.
struct Digits {
  u64 v;
  explicit Digits(u64 x) : v(x) {}
  unsigned take(u64 radix) {
    unsigned d = unsigned(v % radix);
    v /= radix;
    return d;
  }
};

inline u64 ipow(u64 b, unsigned e) {
  u64 r = 1;
  while (e--) r *= b;
  return r;
}

}  // namespace mc
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_REGISTER(eng)                                        \
  static void MC_CAT(mc_reg_, __LINE__)(mc::Engine & eng);      \
  static mc::Reg MC_CAT(mc_regobj_, __LINE__)(&MC_CAT(mc_reg_, __LINE__)); \
  static void MC_CAT(mc_reg_, __LINE__)(mc::Engine & eng)
#endif
