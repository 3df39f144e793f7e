// Driver of the exploration engine (see mc.hpp).
//   <bin> run quick|thorough JOBS OUT.json
//   <bin> replay quick|thorough FAMILY INDEX
#include "mc.hpp"
#include <atomic>
#include <cerrno>
#include <fcntl.h>
#include <csignal>
#include <ctime>
#include <exception>
#include <new>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

static std::vector<RegisterFn>& regs() {
  static std::vector<RegisterFn> r;
  return r;
}
Reg::Reg(RegisterFn f) { regs().push_back(f); }

static const int MAXW = 64, MAXF = 512, MAXV = 256;
static const u64 TAB = u64(1) << 25;

struct Slot {
  std::atomic<int> busy;
  std::atomic<int> fam;
  std::atomic<u64> idx;
  std::atomic<double> since;
  u64 evals, steps;
  std::atomic<u64> nextIdx, endIdx;  // remaining part of the claimed chunk
};
struct Viol {
  int fam;
  u64 idx;
  char tag[64];
  char msg[1500];
};
struct Shared {
  std::atomic<u64> next[MAXF];
  std::atomic<u64> done[MAXF];
  std::atomic<int> nv;
  std::atomic<int> stop;
  std::atomic<u64> nstates, nnontriv, stateFull;
  std::atomic<u64> sampleIdx[MAXF];
  Slot slot[MAXW];
  Viol viol[MAXV];
};
static Shared* S;
static std::atomic<u64>*tabS, *tabN;
static Slot* me;
static u64 pendEvals;

static bool insert(std::atomic<u64>* tab, u64 h) {
  if (!tab) return false;
  if (h == 0) h = 1;
  u64 i = (h * 0x9e3779b97f4a7c15ULL) & (TAB - 1);
  for (int probe = 0; probe < 512; ++probe) {
    u64 cur = tab[i].load(std::memory_order_relaxed);
    if (cur == h) return false;
    if (cur == 0) {
      if (tab[i].compare_exchange_strong(cur, h)) return true;
      if (cur == h) return false;
    }
    i = (i + 1) & (TAB - 1);
  }
  S->stateFull++;
  return false;
}
void Case::state(u64 h) {
  if (S && insert(tabS, h)) S->nstates++;
}
void Case::step(u64 n) {
  if (me) me->steps += n;
}
void Case::nontrivial(u64 h) {
  if (S && insert(tabN, h)) S->nnontriv++;
}

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static const size_t INBUF = 1 << 16;
static char* inbuf;
void Case::input(const std::string& s) {
  if (!verbose || !inbuf) return;
  size_t l = std::strlen(inbuf);
  size_t n = s.size() < INBUF - 1 - l ? s.size() : INBUF - 1 - l;
  std::memcpy(inbuf + l, s.data(), n);
  inbuf[l + n] = 0;
}

static bool exec(Engine::Family& f, u64 idx, bool verbose, std::string* tag,
                 std::string* msg) {
  Case c;
  c.idx = idx;
  c.verbose = verbose;
  bool ok = true;
  try {
    f.fn(idx, c);
  } catch (const Failure& e) {
    ok = false;
    *tag = e.tag;
    *msg = e.msg;
  } catch (const std::bad_alloc&) {
    ok = false;
    *tag = "bad_alloc";
    *msg = "std::bad_alloc escaped (memory limit)";
  } catch (const std::exception& e) {
    ok = false;
    *tag = "exception";
    *msg = std::string("exception escaped: ") + e.what();
  } catch (...) {
    ok = false;
    *tag = "exception";
    *msg = "unknown exception escaped";
  }
  return ok;
}

static void report(int fam, u64 idx, const std::string& tag, const std::string& msg) {
  int k = S->nv.fetch_add(1);
  if (k >= MAXV) {
    S->stop = 1;
    return;
  }
  Viol& v = S->viol[k];
  v.fam = fam;
  v.idx = idx;
  std::snprintf(v.tag, sizeof v.tag, "%s", tag.c_str());
  std::snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
}

static bool quiet;
static void limitMemory() {
  if (quiet) {
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) dup2(fd, 2), dup2(fd, 1);
  }
#if !defined(__SANITIZE_ADDRESS__)
  rlimit r;
  r.rlim_cur = r.rlim_max = 3ull << 30;
  setrlimit(RLIMIT_AS, &r);
#endif
  rlimit c;
  c.rlim_cur = c.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &c);
}

static void worker(Engine& e, int w) {
  limitMemory();
  me = &S->slot[w];
  std::string tag, msg;
  for (;;) {
    int f = me->fam;
    u64 i = me->nextIdx, end = me->endIdx;
    for (; i < end; ++i) {
      if (S->stop) _exit(0);
      me->idx = i;
      me->nextIdx = i + 1;
      me->since = now();
      me->busy = 1;
      bool ok = exec(e.fams[f], i, false, &tag, &msg);
      me->busy = 0;
      me->evals++;
      S->done[f]++;
      if (!ok) report(f, i, tag, msg);
    }
    // claim a new chunk
    bool got = false;
    for (size_t g = 0; g < e.fams.size(); ++g) {
      u64 n = e.fams[g].n;
      if (S->next[g] >= n) continue;
      u64 ch = e.fams[g].chunk;
      if (!ch) {
        ch = n / 256;
        if (ch < 1) ch = 1;
        if (ch > 2048) ch = 2048;
      }
      u64 b = S->next[g].fetch_add(ch);
      if (b >= n) continue;
      me->fam = int(g);
      me->endIdx = b + ch < n ? b + ch : n;
      me->nextIdx = b;
      got = true;
      break;
    }
    if (!got) break;
  }
  std::fflush(0);
  _exit(0);
}

static std::string jesc(const std::string& s) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char ch = s[i];
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += char(ch);
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 0x20 || ch > 0x7e) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += char(ch);
  }
  return o + "\"";
}

// Runs one case in a child; result via pipe.  status: 0 ok, 1 failed
struct One {
  bool ok;
  std::string tag, msg, in;
};
static One isolated(Engine& e, int fam, u64 idx, double limit) {
  int p[2];
  if (pipe(p)) std::exit(3);
  if (!inbuf)
    inbuf = (char*)mmap(0, INBUF, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  inbuf[0] = 0;
  std::fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    limitMemory();
    me = 0;
    std::string tag, msg;
    bool ok = exec(e.fams[fam], idx, true, &tag, &msg);
    std::string out = std::string(ok ? "K" : "F") + '\0' + tag + '\0' + msg;
    size_t off = 0;
    while (off < out.size()) {
      ssize_t n = write(p[1], out.data() + off, out.size() - off);
      if (n <= 0) break;
      off += n;
    }
    _exit(0);
  }
  close(p[1]);
  std::string buf;
  double t0 = now();
  bool hung = false;
  for (;;) {
    fd_set s;
    FD_ZERO(&s);
    FD_SET(p[0], &s);
    timeval tv = {0, 200000};
    int r = select(p[0] + 1, &s, 0, 0, &tv);
    if (r > 0) {
      char b[65536];
      ssize_t n = read(p[0], b, sizeof b);
      if (n <= 0) break;
      buf.append(b, n);
    }
    if (now() - t0 > limit) {
      hung = true;
      kill(pid, SIGKILL);
      break;
    }
  }
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  One o;
  o.ok = false;
  o.in = inbuf;
  if (hung) {
    o.tag = "hang";
    o.msg = "no result within the time limit";
    return o;
  }
  if (WIFSIGNALED(st) || buf.empty()) {
    o.tag = "crash";
    char b[64];
    std::snprintf(b, sizeof b, "terminated by signal %d (status %d)",
                  WIFSIGNALED(st) ? WTERMSIG(st) : 0, st);
    o.msg = b;
    return o;
  }
  o.ok = buf[0] == 'K';
  size_t a = buf.find('\0'), b = buf.find('\0', a + 1);
  o.tag = buf.substr(a + 1, b - a - 1);
  o.msg = buf.substr(b + 1);
  return o;
}

static int run(Engine& e, int jobs, const char* out) {
  quiet = true;
  const double HANG = std::getenv("MC_HANG") ? std::atof(std::getenv("MC_HANG")) : 20;
  const double CAP = std::getenv("MC_CAP") ? std::atof(std::getenv("MC_CAP")) : 780;
  void* m = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  S = new (m) Shared();
  tabS = (std::atomic<u64>*)mmap(0, TAB * 8, PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  tabN = (std::atomic<u64>*)mmap(0, TAB * 8, PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  double t0 = now();
  std::vector<pid_t> pids(jobs, 0);
  std::vector<std::string> notes;
  auto spawn = [&](int w) {
    std::fflush(0);
    pid_t p = fork();
    if (p == 0) worker(e, w);
    pids[w] = p;
  };
  for (int w = 0; w < jobs; ++w) spawn(w);
  int alive = jobs;
  bool capped = false;
  while (alive) {
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      for (int w = 0; w < jobs; ++w)
        if (pids[w] == p) {
          if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
            Slot& s = S->slot[w];
            if (s.busy) {
              char b[96];
              std::snprintf(b, sizeof b, "worker died: signal %d exit %d",
                            WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : 0);
              report(s.fam, s.idx, "crash", b);
              s.busy = 0;
              s.evals++;
              S->done[s.fam]++;
            }
            if (!S->stop)
              spawn(w);
            else
              --alive;
          } else {
            pids[w] = 0;
            --alive;
          }
        }
      continue;
    }
    double t = now();
    for (int w = 0; w < jobs; ++w) {
      Slot& s = S->slot[w];
      if (pids[w] && s.busy && t - s.since > HANG) {
        u64 i = s.idx;
        int f = s.fam;
        kill(pids[w], SIGKILL);
        waitpid(pids[w], &st, 0);
        if (s.busy && s.idx == i && s.fam == f) {
          report(f, i, "hang", "no result within the per-case limit");
          s.busy = 0;
          s.evals++;
          S->done[f]++;
        }
        if (!S->stop)
          spawn(w);
        else {
          pids[w] = 0;
          --alive;
        }
      }
    }
    if (t - t0 > CAP && !S->stop) {
      capped = true;
      S->stop = 1;
    }
    if (S->nv >= MAXV) S->stop = 1;
    // crashes and hangs are costly: a few of them settle the matter
    if (S->nv && !S->stop) {
      int heavy = 0;
      for (int k = 0; k < S->nv && k < MAXV; ++k)
        if (!std::strcmp(S->viol[k].tag, "hang")) heavy += 4;
      if (heavy >= 8) S->stop = 1;
    }
    usleep(2000);
  }
  // confirm violations
  FILE* o = std::fopen(out, "w");
  if (!o) return 3;
  std::fprintf(o, "{\"violations\":[");
  int nv = S->nv < MAXV ? int(S->nv) : MAXV;
  // smallest index first within a family
  std::vector<int> ord;
  for (int k = 0; k < nv; ++k) ord.push_back(k);
  for (size_t a = 1; a < ord.size(); ++a)
    for (size_t b = a; b > 0; --b) {
      Viol &x = S->viol[ord[b - 1]], &y = S->viol[ord[b]];
      if (x.fam > y.fam || (x.fam == y.fam && x.idx > y.idx))
        std::swap(ord[b - 1], ord[b]);
      else
        break;
    }
  bool first = true;
  int unstable = 0, hangsTried = 0;
  for (size_t k = 0; k < ord.size(); ++k) {
    Viol& v = S->viol[ord[k]];
    bool isHang = !std::strcmp(v.tag, "hang");
    if (isHang && hangsTried >= 1) continue;
    if (isHang) ++hangsTried;
    One r = isolated(e, v.fam, v.idx, isHang ? 5 * HANG : 3 * HANG);
    if (r.ok) {
      // a deterministic case that passes alone: not reproducible
      ++unstable;
      std::fprintf(stderr, "note: %s/%llu (%s: %s) did not reproduce alone\n",
                   e.fams[v.fam].name.c_str(), (unsigned long long)v.idx, v.tag, v.msg);
      continue;
    }
    std::fprintf(o, "%s\n{\"family\":%s,\"index\":%llu,\"tag\":%s,\"msg\":%s,\"input\":%s}",
                 first ? "" : ",", jesc(e.fams[v.fam].name).c_str(), (unsigned long long)v.idx,
                 jesc(r.tag).c_str(), jesc(r.msg).c_str(), jesc(r.in).c_str());
    first = false;
  }
  std::fprintf(o, "],\n\"families\":[");
  bool complete = !S->stop;
  for (size_t f = 0; f < e.fams.size(); ++f) {
    if (S->done[f] != e.fams[f].n) complete = false;
    std::fprintf(o, "%s{\"name\":%s,\"cases\":%llu,\"executed\":%llu}", f ? "," : "",
                 jesc(e.fams[f].name).c_str(), (unsigned long long)e.fams[f].n,
                 (unsigned long long)u64(S->done[f]));
  }
  u64 evals = 0, steps = 0;
  for (int w = 0; w < jobs; ++w) {
    evals += S->slot[w].evals;
    steps += S->slot[w].steps;
  }
  std::fprintf(o, "],\n\"evaluations\":%llu,\"steps\":%llu,\"states\":%llu,\"nontrivial\":%llu,",
               (unsigned long long)evals, (unsigned long long)steps,
               (unsigned long long)u64(S->nstates), (unsigned long long)u64(S->nnontriv));
  std::fprintf(o, "\"table_full\":%llu,\"capped\":%s,\"exhaustive\":%s,\"unreproduced\":%d,\n\"samples\":[",
               (unsigned long long)u64(S->stateFull), capped ? "true" : "false",
               complete ? "true" : "false", unstable);
  first = true;
  int ns = 0;
  for (size_t f = 0; f < e.fams.size() && ns < 12; ++f) {
    u64 n = e.fams[f].n;
    if (!n) continue;
    u64 at = n - 1 - n / 3;
    One r = isolated(e, int(f), at, 3 * HANG);
    std::fprintf(o, "%s\n{\"family\":%s,\"index\":%llu,\"input\":%s,\"held\":%s}", first ? "" : ",",
                 jesc(e.fams[f].name).c_str(), (unsigned long long)at,
                 jesc(r.in.substr(0, 600)).c_str(), r.ok ? "true" : "false");
    first = false;
    ++ns;
  }
  std::fprintf(o, "],\n\"wall_s\":%.2f}\n", now() - t0);
  std::fclose(o);
  return 0;
}

}  // namespace mc

int main(int argc, char** argv) {
  if (argc < 5) {
    std::fprintf(stderr, "usage: %s run|replay quick|thorough ...\n", argv[0]);
    return 2;
  }
  mc::Engine e;
  e.tier = !std::strcmp(argv[2], "thorough") ? mc::THOROUGH : mc::QUICK;
  for (size_t i = 0; i < mc::regs().size(); ++i) mc::regs()[i](e);
  if (std::getenv("MC_FAM")) {  // development aid: restrict to some families
    std::vector<mc::Engine::Family> keep;
    for (auto& f : e.fams)
      if (f.name.find(std::getenv("MC_FAM")) != std::string::npos) keep.push_back(f);
    e.fams = keep;
  }
  if (e.fams.size() > size_t(mc::MAXF)) return 2;
  if (!std::strcmp(argv[1], "run")) {
    int jobs = std::atoi(argv[3]);
    if (jobs < 1) jobs = 1;
    if (jobs > mc::MAXW) jobs = mc::MAXW;
    return mc::run(e, jobs, argv[4]);
  }
  for (size_t f = 0; f < e.fams.size(); ++f)
    if (e.fams[f].name == argv[3]) {
      mc::One r = mc::isolated(e, int(f), std::strtoull(argv[4], 0, 10), 120);
      std::printf("family=%s index=%s\n%s\n%s %s %s\n", argv[3], argv[4], r.in.c_str(),
                  r.ok ? "HELD" : "FAILED", r.tag.c_str(), r.msg.c_str());
      return r.ok ? 0 : 1;
    }
  std::fprintf(stderr, "no such family %s\n", argv[3]);
  return 2;
}
