// Small property-based testing engine with choice-tape generation, integrated
// (tape) shrinking, forked execution and replay files.
//
// Every random choice of a case is drawn through pbt::Src. The choices form a
// tape of (value,bound) pairs; a case is a pure function of its tape. A tape
// comes from a PRNG (random mode), from a replay file, from the shrinker, or
// from libFuzzer bytes (PBT_FUZZ).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

struct Failure {
  std::string msg;
};

inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

static const size_t TAPE_CAP = 1 << 18;

// Lives in shared memory, so that a crashed worker leaves its last case behind.
struct Shared {
  volatile int32_t test;
  volatile uint64_t caseIdx;
  volatile uint64_t doneCases;
  volatile int32_t failed; // 1: oracle failure (msg)
  char msg[8192];
  volatile uint64_t tapeLen;
  uint64_t tape[TAPE_CAP];
};

class Src {
public:
  enum Mode { RANDOM, REPLAY };
  Shared *sh;
  Mode mode;
  uint64_t rng;
  const std::vector<uint64_t> *in = nullptr;
  size_t pos = 0;
  bool nontriv = false;
  uint64_t hash = 1469598103934665603ULL;
  std::vector<std::string> labels;
  bool wantSample = false;
  std::string sample;

  Src(Shared *s, uint64_t seed) : sh(s), mode(RANDOM), rng(seed) {
    sh->tapeLen = 0;
  }
  Src(Shared *s, const std::vector<uint64_t> &t)
      : sh(s), mode(REPLAY), rng(0), in(&t) {
    sh->tapeLen = 0;
  }

  // uniform in [0, max]
  uint64_t upto(uint64_t max) {
    uint64_t v;
    if (mode == RANDOM) {
      v = splitmix(rng);
      if (max != ~0ULL)
        v = (uint64_t)(((unsigned __int128)v * ((unsigned __int128)max + 1)) >>
                       64);
    } else {
      v = pos < in->size() ? (*in)[pos] : 0;
      if (v > max)
        v = max == ~0ULL ? v : v % (max + 1);
    }
    pos++;
    uint64_t n = sh->tapeLen;
    if (n < TAPE_CAP) {
      sh->tape[n] = v;
      sh->tapeLen = n + 1;
    }
    hash = (hash ^ v) * 1099511628211ULL;
    hash ^= hash >> 29;
    return v;
  }
  size_t range(size_t lo, size_t hi) { return lo + (size_t)upto(hi - lo); }
  int64_t irange(int64_t lo, int64_t hi) {
    return (int64_t)((uint64_t)lo + upto((uint64_t)hi - (uint64_t)lo));
  }
  bool coin() { return upto(1); }
  // true with probability n/d; shrinks to false
  bool chance(unsigned n, unsigned d) { return upto(d - 1) >= d - n; }
  template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[upto(N - 1)]; }
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[upto(v.size() - 1)];
  }
  template <class T> T pick(std::initializer_list<T> v) {
    return *(v.begin() + upto(v.size() - 1));
  }
  // Integer of `bits` bits, biased towards boundaries. Shrinks to 0.
  uint64_t bits(unsigned nbits) {
    if (!nbits)
      return 0;
    const uint64_t mask = nbits >= 64 ? ~0ULL : (1ULL << nbits) - 1;
    switch (upto(7)) {
    case 0: // small
      return upto(std::min<uint64_t>(mask, 16));
    case 1: // any
    case 2:
      return upto(mask);
    case 3: { // power of two +-1
      uint64_t v = 1ULL << upto(nbits - 1);
      return (v + upto(2) - 1) & mask;
    }
    case 4: { // all-ones minus small
      return mask - upto(std::min<uint64_t>(mask, 4));
    }
    case 5: { // random length
      unsigned l = (unsigned)upto(nbits - 1) + 1;
      return upto(l >= 64 ? ~0ULL : (1ULL << l) - 1);
    }
    case 6: { // negated short (sign-extended)
      unsigned l = (unsigned)upto(nbits - 1) + 1;
      return (~upto(l >= 64 ? ~0ULL : (1ULL << l) - 1)) & mask;
    }
    default: { // repeated byte
      return (upto(255) * 0x0101010101010101ULL) & mask;
    }
    }
  }
  // container size: mostly small
  size_t size(size_t max) {
    switch (upto(3)) {
    case 0:
      return upto(std::min<size_t>(max, 3));
    case 1:
      return upto(std::min<size_t>(max, 12));
    default:
      if (max > 15 && upto(7) == 7) { // at and beside a power of two
        size_t top = 63 - __builtin_clzll((unsigned long long)max), n = ((size_t)1 << (3 + upto(top - 3))) - 1 + upto(2);
        return std::min(n, max);
      }
      return upto(max);
    }
  }
  std::string bytes(size_t n) {
    std::string s(n, '\0');
    for (auto &c : s)
      c = (char)upto(255);
    return s;
  }
  // bytes from few distinct draws (cheap for long buffers)
  std::string bulk(size_t n) {
    uint64_t s = upto(~0ULL);
    std::string r(n, '\0');
    for (size_t i = 0; i < n; i++) {
      if (s == 0)
        r[i] = 0;
      else
        r[i] = (char)(splitmix(s) >> 40);
      if (s == 0)
        s = 0;
    }
    return r;
  }
  std::string ident(size_t maxLen) {
    size_t n = range(1, maxLen);
    std::string s;
    for (size_t i = 0; i < n; i++)
      s += (char)('a' + upto(25));
    return s;
  }

  void nontrivial(bool v = true) { nontriv = nontriv || v; }
  void label(const char *l) { labels.push_back(l); }
  void label(const char *l, bool v) {
    if (v)
      labels.push_back(l);
  }
  // describe the case; only evaluated for kept samples and failures
  template <class F> void note(F f) {
    if (wantSample && sample.size() < 1500) {
      std::ostringstream os;
      f(os);
      if (!sample.empty())
        sample += "; ";
      sample += os.str();
    }
  }
};

typedef void (*TestFn)(Src &);
struct Test {
  const char *name;
  TestFn fn;
  uint64_t quick;    // cases, quick tier (total over shards)
  uint64_t thorough; // cases, thorough tier
  double cpuLimit;   // seconds per case
  bool threaded;
  bool probe; // a listed known finding; only run on request
};

inline std::vector<Test> &tests() {
  static std::vector<Test> t;
  return t;
}

struct Reg {
  Reg(const char *n, TestFn f, uint64_t q, uint64_t t, double cpu = 20,
      bool threaded = false, bool probe = false) {
    tests().push_back({n, f, q, t, cpu, threaded, probe});
  }
};

[[noreturn]] inline void fail(const std::string &m) { throw Failure{m}; }

template <class A> std::string show(const A &a) {
  std::ostringstream o;
  o.precision(9);
  o << a;
  return o.str();
}
inline std::string show(char a) { return std::to_string((int)a); }
inline std::string show(signed char a) { return std::to_string((int)a); }
inline std::string show(unsigned char a) { return std::to_string((int)a); }
inline std::string esc(const char *d, size_t n) {
  std::string r = "\"";
  for (size_t i = 0; i < n && i < 400; i++) {
    unsigned char c = d[i];
    if (c == '"' || c == '\\')
      r += '\\', r += (char)c;
    else if (c >= 32 && c < 127)
      r += (char)c;
    else {
      char b[8];
      snprintf(b, 8, "\\x%02x", c);
      r += b;
    }
  }
  return r + "\"";
}
inline std::string esc(const std::string &s) { return esc(s.data(), s.size()); }
inline std::string show(const std::string &s) { return esc(s); }
inline std::string hex(const void *p, size_t n) {
  std::string r;
  for (size_t i = 0; i < n && i < 256; i++) {
    char b[4];
    snprintf(b, 4, "%02x", ((const unsigned char *)p)[i]);
    r += b;
  }
  return r;
}

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define REQUIRE(c, ...)                                                        \
  do {                                                                         \
    if (!(c)) {                                                                \
      std::ostringstream os_;                                                  \
      os_ << "line " PBT_STR(__LINE__) ": " #c " :: " << __VA_ARGS__;           \
      ::pbt::fail(os_.str());                                                  \
    }                                                                          \
  } while (0)
#define REQUIRE_EQ(a, b, ...)                                                  \
  do {                                                                         \
    auto &&a_ = (a);                                                           \
    auto &&b_ = (b);                                                           \
    if (!(a_ == b_)) {                                                         \
      std::ostringstream os_;                                                  \
      os_ << "line " PBT_STR(__LINE__) ": " #a " == " #b " :: "                 \
          << ::pbt::show(a_) << " vs " << ::pbt::show(b_) << " :: "             \
          << __VA_ARGS__;                                                      \
      ::pbt::fail(os_.str());                                                  \
    }                                                                          \
  } while (0)
#define PBT_TEST(name, quick, thorough)                                        \
  static void name(pbt::Src &s);                                               \
  static pbt::Reg reg_##name(#name, name, quick, thorough);                    \
  static void name(pbt::Src &s)
#define PBT_TEST_THREADED(name, quick, thorough)                               \
  static void name(pbt::Src &s);                                               \
  static pbt::Reg reg_##name(#name, name, quick, thorough, 60, true);         \
  static void name(pbt::Src &s)

#define PBT_PROBE(name)                                                        \
  static void name(pbt::Src &s);                                               \
  static pbt::Reg reg_##name(#name, name, 1, 1, 20, false, true);              \
  static void name(pbt::Src &s)

inline uint64_t caseSeed(uint64_t seed, int test, uint64_t idx) {
  uint64_t s = seed * 0x2545F4914F6CDD1DULL + 0x1234567;
  splitmix(s);
  s ^= (uint64_t)(test + 1) * 0xD6E8FEB86659FD93ULL;
  splitmix(s);
  s ^= idx * 0xA0761D6478BD642FULL;
  splitmix(s);
  return s;
}

// hang guard: CPU time per case (threaded: wall)
// long cases are also looked at twice a second for the memory they hold, so
// that a runaway one ends before the machine runs out of it
inline volatile sig_atomic_t gTicks;
inline void onTick(int) {
  int e = errno;
  bool over = --gTicks <= 0, big = false;
  int fd = open("/proc/self/statm", O_RDONLY | O_CLOEXEC);
  if (fd >= 0) {
    char b[128];
    ssize_t n = read(fd, b, sizeof b - 1);
    close(fd);
    ssize_t i = 0;
    while (i < n && b[i] != ' ') i++;
    unsigned long long pages = 0;
    for (i++; i < n && b[i] >= '0' && b[i] <= '9'; i++) pages = pages * 10 + (unsigned)(b[i] - '0');
    big = pages > (4ull << 30) / 4096;
  }
  if (over || big) {
    int sg = over ? SIGPROF : SIGXCPU;
    signal(sg, SIG_DFL);
    sigset_t m;
    sigemptyset(&m);
    sigaddset(&m, sg);
    raise(sg);
    sigprocmask(SIG_UNBLOCK, &m, nullptr);
  }
  errno = e;
}
inline void armTimer(const Test &t) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  setitimer(t.threaded ? ITIMER_PROF : ITIMER_REAL, &it, nullptr);
  if (!t.threaded) {
    static bool once = false;
    if (!once) {
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_handler = onTick;
      sa.sa_flags = SA_RESTART;
      sigaction(SIGPROF, &sa, nullptr);
      once = true;
    }
    gTicks = (int)t.cpuLimit * 2;
    it.it_value.tv_usec = it.it_interval.tv_usec = 500000;
    setitimer(ITIMER_PROF, &it, nullptr);
    return;
  }
  it.it_value.tv_sec = (long)t.cpuLimit;
  setitimer(ITIMER_REAL, &it, nullptr);
}
inline void disarmTimer() {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  setitimer(ITIMER_PROF, &it, nullptr);
  setitimer(ITIMER_REAL, &it, nullptr);
}

// Runs one case; exceptions other than Failure escaping the property are
// failures too.
inline bool runCase(const Test &t, Src &s, std::string &msg) {
  try {
    t.fn(s);
    return true;
  } catch (const Failure &f) {
    msg = f.msg;
  } catch (const std::exception &e) {
    msg = std::string("unexpected exception escaped: ") + e.what();
  } catch (...) {
    msg = "unexpected non-std exception escaped";
  }
  return false;
}

inline Shared *newShared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(3);
  }
  return (Shared *)p;
}

inline void setMsg(Shared *sh, const std::string &m) {
  size_t n = std::min(m.size(), sizeof(sh->msg) - 1);
  memcpy(sh->msg, m.data(), n);
  sh->msg[n] = 0;
}

struct Outcome {
  bool fail = false;
  std::string msg;
  std::vector<uint64_t> tape; // normalised (choices really consumed)
};

inline std::string gErrFile; // child's stderr (sanitizer reports)

inline std::string crashInfo(int st) {
  std::string r;
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGXCPU)
      r = "case held more than 4 GB of memory";
    else if (sg == SIGPROF || sg == SIGALRM)
      r = "case did not terminate within its time limit (hang)";
    else
      r = std::string("crashed: signal ") + strsignal(sg);
  } else
    r = "process exited with status " + std::to_string(WEXITSTATUS(st));
  FILE *f = fopen(gErrFile.c_str(), "r");
  if (f) {
    char line[1024];
    int frames = 0;
    while (fgets(line, sizeof line, f)) {
      if (strstr(line, "ERROR: ") || strstr(line, "runtime error") ||
          strstr(line, "terminate called") || strstr(line, "what():")) {
        r += " | ";
        r += line;
      } else if (strstr(line, "    #") && frames < 6) {
        const char *in = strstr(line, " in ");
        if (in) {
          r += " <- ";
          r += in + 4;
          frames++;
        }
      }
    }
    fclose(f);
    for (auto &c : r)
      if (c == '\n')
        c = ' ';
  }
  return r;
}

inline void redirectErr() {
  int fd = open(gErrFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd >= 0) {
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
  }
}

inline Outcome runForked(Shared *sh, int test,
                         const std::vector<uint64_t> &tape) {
  Outcome o;
  sh->failed = 0;
  sh->msg[0] = 0;
  sh->tapeLen = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    redirectErr();
    const Test &t = tests()[test];
    armTimer(t);
    std::string msg;
    bool ok;
    {
      Src s(sh, tape);
      s.wantSample = true;
      ok = runCase(t, s, msg);
      if (!ok && !s.sample.empty())
        msg += " [" + s.sample + "]";
    }
    if (!ok) {
      setMsg(sh, msg);
      sh->failed = 1;
      _exit(77);
    }
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  o.tape.assign(sh->tape, sh->tape + sh->tapeLen);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return o;
  o.fail = true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && sh->failed)
    o.msg = sh->msg;
  else
    o.msg = crashInfo(st);
  return o;
}

// shortlex order on tapes
inline bool simpler(const std::vector<uint64_t> &a,
                    const std::vector<uint64_t> &b) {
  if (a.size() != b.size())
    return a.size() < b.size();
  return a < b;
}

inline Outcome shrink(Shared *sh, int test, Outcome best, double budgetSec) {
  struct timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  int evals = 0;
  auto expired = [&] {
    clock_gettime(CLOCK_MONOTONIC, &t1);
    return (t1.tv_sec - t0.tv_sec) > budgetSec || evals > 4000;
  };
  auto attempt = [&](const std::vector<uint64_t> &cand) {
    if (expired())
      return false;
    evals++;
    Outcome o = runForked(sh, test, cand);
    if (o.fail && simpler(o.tape, best.tape)) {
      best = o;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && !expired()) {
    progress = false;
    // delete blocks
    for (size_t bl = std::max<size_t>(1, best.tape.size() / 2); bl >= 1;
         bl /= 2) {
      for (size_t i = 0; i + bl <= best.tape.size() && !expired();) {
        auto c = best.tape;
        c.erase(c.begin() + i, c.begin() + i + bl);
        if (attempt(c))
          progress = true;
        else
          i += std::max<size_t>(1, bl / 2);
      }
      if (bl == 1)
        break;
    }
    // zero blocks
    for (size_t bl = 8; bl >= 2; bl /= 2)
      for (size_t i = 0; i + bl <= best.tape.size() && !expired(); i += bl) {
        auto c = best.tape;
        bool any = false;
        for (size_t k = 0; k < bl; k++) {
          any |= c[i + k] != 0;
          c[i + k] = 0;
        }
        if (any && attempt(c))
          progress = true;
      }
    // minimise values
    for (size_t i = 0; i < best.tape.size() && !expired(); i++) {
      if (!best.tape[i])
        continue;
      auto c = best.tape;
      c[i] = 0;
      if (attempt(c)) {
        progress = true;
        continue;
      }
      // decrement one and delete following (length-prefixed lists)
      if (i + 1 < best.tape.size()) {
        c = best.tape;
        c[i]--;
        c.erase(c.begin() + i + 1);
        if (attempt(c)) {
          progress = true;
          continue;
        }
      }
      uint64_t lo = 0;
      while (i < best.tape.size() && best.tape[i] > lo + 1 && !expired()) {
        uint64_t mid = lo + (best.tape[i] - lo) / 2;
        c = best.tape;
        c[i] = mid;
        uint64_t before = best.tape[i];
        if (attempt(c)) {
          progress = true;
          if (i >= best.tape.size() || best.tape[i] >= before)
            break;
        } else
          lo = mid;
      }
      if (i < best.tape.size() && best.tape[i]) {
        c = best.tape;
        c[i]--;
        if (attempt(c))
          progress = true;
      }
    }
  }
  return best;
}

inline std::string jsonEsc(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      r += '\\', r += (char)c;
    else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      r += b;
    } else
      r += (char)c;
  }
  return r + "\"";
}

struct TestStats {
  uint64_t cases = 0, nontriv = 0;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
};

inline void writeStats(const std::string &out, const std::vector<TestStats> &st) {
  FILE *f = fopen((out + ".json").c_str(), "w");
  if (!f) {
    perror("stats");
    _exit(3);
  }
  fprintf(f, "{\"tests\":[");
  for (size_t i = 0; i < st.size(); i++) {
    auto &t = st[i];
    fprintf(f, "%s{\"name\":%s,\"cases\":%llu,\"nontrivial\":%llu,\"labels\":{",
            i ? "," : "", jsonEsc(tests()[i].name).c_str(),
            (unsigned long long)t.cases, (unsigned long long)t.nontriv);
    bool first = true;
    for (auto &l : t.labels) {
      fprintf(f, "%s%s:%llu", first ? "" : ",", jsonEsc(l.first).c_str(),
              (unsigned long long)l.second);
      first = false;
    }
    fprintf(f, "},\"samples\":[");
    for (size_t k = 0; k < t.samples.size(); k++)
      fprintf(f, "%s%s", k ? "," : "", jsonEsc(t.samples[k]).c_str());
    fprintf(f, "]}");
  }
  fprintf(f, "]}\n");
  fclose(f);
  f = fopen((out + ".hashes").c_str(), "wb");
  for (size_t i = 0; i < st.size(); i++)
    for (uint64_t h : st[i].distinct) {
      h ^= (i + 1) * 0x9e3779b97f4a7c15ULL;
      fwrite(&h, 8, 1, f);
    }
  fclose(f);
}

// Re-runs a whole run of consecutive cases in one process (for failures that
// need state left by earlier cases).
struct Range {
  uint64_t seed = 0, from = 0, step = 1, last = 0;
  bool valid = false;
};
inline Outcome runRange(Shared *sh, int test, const Range &r) {
  Outcome o;
  sh->failed = 0;
  sh->msg[0] = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    redirectErr();
    const Test &t = tests()[test];
    for (uint64_t i = r.from; i <= r.last; i += r.step) {
      if ((((i - r.from) / r.step) & 63) == 0 || t.cpuLimit > 50)
        armTimer(t);
      Src s(sh, caseSeed(r.seed, test, i));
      s.wantSample = i == r.last;
      std::string msg;
      if (!runCase(t, s, msg)) {
        setMsg(sh, msg + " [after earlier cases] [" + s.sample + "]");
        sh->failed = 1;
        _exit(77);
      }
    }
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return o;
  o.fail = true;
  o.msg = sh->failed ? std::string(sh->msg) : crashInfo(st);
  return o;
}

inline bool readReplay(const char *path, std::string &test,
                       std::vector<uint64_t> &tape, Range &rg) {
  FILE *f = fopen(path, "r");
  if (!f)
    return false;
  char line[65536];
  bool inTape = false;
  while (fgets(line, sizeof line, f)) {
    if (!strncmp(line, "test ", 5)) {
      test = line + 5;
      while (!test.empty() && (test.back() == '\n' || test.back() == '\r'))
        test.pop_back();
    } else if (!strncmp(line, "range ", 6)) {
      unsigned long long a, b, c, d;
      if (sscanf(line + 6, "%llu %llu %llu %llu", &a, &b, &c, &d) == 4) {
        rg.seed = a, rg.from = b, rg.step = c, rg.last = d;
        rg.valid = true;
      }
    } else if (!strncmp(line, "tape", 4)) {
      inTape = true;
    } else if (inTape && line[0] != '#')
      for (char *p = line; *p;) {
        char *e;
        uint64_t v = strtoull(p, &e, 10);
        if (e == p)
          break;
        tape.push_back(v);
        p = e;
      }
  }
  fclose(f);
  return true;
}

inline int testByName(const std::string &n) {
  for (size_t i = 0; i < tests().size(); i++)
    if (n == tests()[i].name)
      return (int)i;
  return -1;
}

// returns 0 held, 1 violation (FAIL line printed), 4 flaky only
inline int mainRun(int argc, char **argv) {
  uint64_t seed = 1, shard = 0, shards = 1;
  bool thorough = false, probe = false;
  double scale = 1;
  std::string out = "stats", replayDir = ".", only, tag = "x";
  std::vector<std::string> replays;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
    if (a == "--seed")
      seed = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--shard") {
      std::string v = nxt();
      sscanf(v.c_str(), "%lu/%lu", &shard, &shards);
    } else if (a == "--thorough")
      thorough = true;
    else if (a == "--probe")
      probe = true;
    else if (a == "--scale")
      scale = atof(nxt().c_str());
    else if (a == "--out")
      out = nxt();
    else if (a == "--replay-dir")
      replayDir = nxt();
    else if (a == "--only")
      only = nxt();
    else if (a == "--tag")
      tag = nxt();
    else if (a == "--replay")
      replays.push_back(nxt());
    else if (a == "--list") {
      for (auto &t : tests())
        printf("%s %llu %llu\n", t.name, (unsigned long long)t.quick,
               (unsigned long long)t.thorough);
      return 0;
    }
  }
  gErrFile = out + ".err";
#ifdef __has_feature
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define PBT_OWN_MEMORY_LIMIT
#endif
#endif
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(PBT_OWN_MEMORY_LIMIT)
  // endless growth becomes a failed allocation of the case (sanitizer builds
  // have their own limit)
  struct rlimit mem {3ull << 30, 3ull << 30};
  setrlimit(RLIMIT_AS, &mem);
#endif
  Shared *sh = newShared();
  int rc = 0;

  auto confirm = [&](int test, Outcome o, const std::string &origin,
                     Range rg) -> bool {
    // replay: at least 3 failures within the attempts allowed
    auto solid = [&](const std::vector<uint64_t> &tp, Outcome &last) {
      int fails = 0;
      // schedules differ from run to run: one more failure confirms those
      int tries = tests()[test].threaded ? 40 : 6;
      int need = tests()[test].threaded ? 1 : 3;
      for (int k = 0; k < tries && fails < need; k++) {
        Outcome q = runForked(sh, test, tp);
        if (q.fail) {
          fails++;
          last = q;
        }
      }
      return fails >= need;
    };
    Outcome first;
    std::vector<uint64_t> tape0 = o.tape;
    bool useRange = false;
    if (!solid(tape0, first)) {
      // try again with the history of the run
      int f = 0;
      for (int k = 0; k < 3 && !tests()[test].threaded; k++) {
        // first narrow the history by doubling backwards
        Outcome q = runRange(sh, test, rg);
        if (!q.fail)
          break;
        f++;
        first = q;
      }
      useRange = f == 3;
      if (useRange) {
        for (uint64_t n = 1; n < (rg.last - rg.from) / rg.step; n *= 2) {
          Range r2 = rg;
          r2.from = rg.last - n * rg.step;
          if (runRange(sh, test, r2).fail && runRange(sh, test, r2).fail) {
            rg = r2;
            break;
          }
        }
        first.tape = tape0;
      }
    }
    if (!first.fail) {
      printf("FLAKY test=%s origin=%s msg=%s\n", tests()[test].name,
             origin.c_str(), o.msg.c_str());
      fflush(stdout);
      return false;
    }
    Outcome best = first;
    if (!tests()[test].threaded && !useRange) {
      best = shrink(sh, test, first, getenv("PBT_FAST") ? 0.1 : 60);
      Outcome chk;
      if (!solid(best.tape, chk))
        best = first;
      else
        best = chk;
    }
    char path[512];
    snprintf(path, sizeof path, "%s/%s-%s-%s.replay", replayDir.c_str(),
             tag.c_str(), tests()[test].name, origin.c_str());
    FILE *f = fopen(path, "w");
    if (f) {
      fprintf(f, "# minimal failing case; re-run: <harness binary> --replay "
                 "<this file>, or ./check.py <property> --replay <this file>\n");
      fprintf(f, "# seed %llu origin %s\n", (unsigned long long)seed,
              origin.c_str());
      std::string m = best.msg;
      for (auto &c : m)
        if (c == '\n')
          c = ' ';
      fprintf(f, "# %s\n", m.c_str());
      fprintf(f, "test %s\n", tests()[test].name);
      if (useRange)
        fprintf(f, "range %llu %llu %llu %llu\n", (unsigned long long)rg.seed,
                (unsigned long long)rg.from, (unsigned long long)rg.step,
                (unsigned long long)rg.last);
      fprintf(f, "tape\n");
      for (size_t i = 0; i < best.tape.size(); i++)
        fprintf(f, "%llu%c", (unsigned long long)best.tape[i],
                i % 16 == 15 ? '\n' : ' ');
      fprintf(f, "\n");
      fclose(f);
    }
    std::string m = best.msg;
    for (auto &c : m)
      if (c == '\n')
        c = ' ';
    printf("FAIL test=%s replay=%s msg=%s\n", tests()[test].name, path,
           m.c_str());
    fflush(stdout);
    if (getenv("PBT_FAST"))
      _exit(1); // mutation runs need one answer only
    return true;
  };

  if (!replays.empty()) {
    for (auto &p : replays) {
      std::string tn;
      std::vector<uint64_t> tape;
      Range rg;
      if (!readReplay(p.c_str(), tn, tape, rg) || testByName(tn) < 0) {
        fprintf(stderr, "bad replay %s\n", p.c_str());
        return 3;
      }
      int fails = 0;
      Outcome o;
      for (int k = 0; k < 3; k++) {
        o = rg.valid ? runRange(sh, testByName(tn), rg)
                     : runForked(sh, testByName(tn), tape);
        fails += o.fail;
      }
      printf("REPLAY %s test=%s fails=%d/3 msg=%s\n", p.c_str(), tn.c_str(),
             fails, o.msg.c_str());
      if (fails)
        rc = 1;
    }
    return rc;
  }

  // the worker, restarted past a flaky case
  int startTest = 0;
  uint64_t startIdx = shard;
  for (int restarts = 0; restarts < 50; restarts++) {
    sh->failed = 0;
    sh->msg[0] = 0;
    sh->test = -1;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      redirectErr();
      std::vector<TestStats> st(tests().size());
      for (size_t ti = startTest; ti < tests().size(); ti++) {
        const Test &t = tests()[ti];
        if (t.probe != probe || (!only.empty() && only != t.name))
          continue;
        uint64_t n = thorough ? t.thorough : t.quick;
        n = (uint64_t)(n * scale);
        if (n == 0)
          n = 1;
        TestStats &S = st[ti];
        for (uint64_t i = (int)ti == startTest ? startIdx : shard; i < n;
             i += shards) {
          sh->test = (int)ti;
          sh->caseIdx = i;
          if (((i / shards) & 63) == 0 || t.cpuLimit > 50)
            armTimer(t); // time limit covers up to 64 cheap cases
          Src s(sh, caseSeed(seed, (int)ti, i));
          // keep a few evenly spaced samples
          s.wantSample =
              shard == 0 && S.samples.size() < 4 && S.samples.size() * n / 4 <= i;
          std::string msg;
          if (!runCase(t, s, msg)) {
            setMsg(sh, msg);
            sh->failed = 1;
            _exit(77);
          }
          S.cases++;
          if (s.nontriv) {
            S.nontriv++;
            if (S.distinct.size() < 400000)
              S.distinct.insert(s.hash);
          }
          for (auto &l : s.labels)
            S.labels[l]++;
          if (s.wantSample && !s.sample.empty())
            S.samples.push_back(s.sample);
        }
      }
      disarmTimer();
      writeStats(out, st);
      _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
      ;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
      return rc;
    int ti = sh->test;
    uint64_t ci = sh->caseIdx;
    if (ti < 0 || (WIFEXITED(status) && WEXITSTATUS(status) == 3)) {
      printf("ERROR worker ended before any case: status %d %s\n", status,
             crashInfo(status).c_str());
      return 3;
    }
    Outcome o;
    o.fail = true;
    o.tape.assign(sh->tape, sh->tape + sh->tapeLen);
    o.msg = sh->failed ? std::string(sh->msg) : crashInfo(status);
    char origin[64];
    snprintf(origin, sizeof origin, "s%llu-%llu", (unsigned long long)seed,
             (unsigned long long)ci);
    Range rg;
    rg.valid = true;
    rg.seed = seed;
    rg.from = ti == startTest ? startIdx : shard;
    rg.step = shards;
    rg.last = ci;
    if (confirm(ti, o, origin, rg))
      return 1;
    rc = 4;
    startTest = ti;
    startIdx = ci + shards;
  }
  return rc;
}

} // namespace pbt

#ifdef PBT_FUZZ
// libFuzzer front end: bytes -> choice tape for the test named by PBT_ONLY (or
// selected by the first byte).
namespace pbt {
class ByteTape {
public:
  static std::vector<uint64_t> make(const uint8_t *d, size_t n) {
    // varint-like: one byte b<0xE0 -> value b; otherwise 1<<k bytes follow
    std::vector<uint64_t> t;
    size_t i = 0;
    while (i < n && t.size() < 4096) {
      uint8_t b = d[i++];
      if (b < 0xE0)
        t.push_back(b);
      else {
        unsigned len = 1 + (b & 7);
        uint64_t v = 0;
        for (unsigned k = 0; k < len && i < n; k++)
          v |= (uint64_t)d[i++] << (8 * k);
        t.push_back(v);
      }
    }
    return t;
  }
};
} // namespace pbt
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  using namespace pbt;
  static Shared *sh = newShared();
  static const char *only = getenv("PBT_ONLY");
  static const char *skip = getenv("PBT_SKIP");
  static std::vector<uint64_t> ok = [] {
    std::vector<uint64_t> v;
    for (size_t i = 0; i < tests().size(); i++)
      if (!tests()[i].threaded && !tests()[i].probe && (!only || !strcmp(only, tests()[i].name)) &&
          (!skip || !strstr(skip, tests()[i].name)))
        v.push_back(i);
    return v;
  }();
  if (!size || ok.empty())
    return 0;
  int ti = (int)ok[data[0] % ok.size()];
  auto tape = ByteTape::make(data + 1, size - 1);
  // leave the decoded case on disk, so that any abnormal end is replayable
  static const char *last = getenv("PBT_LAST");
  std::string msg;
  Src s(sh, tape);
  struct Dump {
    static void write(const char *path, int ti, const std::vector<uint64_t> &t,
                      const std::string &m) {
      FILE *f = fopen(path, "w");
      if (!f)
        return;
      fprintf(f, "# %s\ntest %s\ntape\n", m.c_str(), tests()[ti].name);
      for (auto v : t)
        fprintf(f, "%llu ", (unsigned long long)v);
      fprintf(f, "\n");
      fclose(f);
    }
  };
  if (getenv("PBT_DECODE") && last)
    Dump::write(last, ti, tape, "decoded");
  if (!runCase(tests()[ti], s, msg)) {
    fprintf(stderr, "ORACLE FAILURE: %s\n", msg.c_str());
    if (last)
      Dump::write(last, ti, tape, msg);
    __builtin_trap();
  }
  return 0;
}
#else
#ifndef PBT_NO_MAIN
int main(int argc, char **argv) { return pbt::mainRun(argc, argv); }
#endif
#endif
