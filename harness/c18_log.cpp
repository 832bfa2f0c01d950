// C18: every case runs in a process of its own (sinks cannot be removed). The
// plan is generated before; what the sinks received comes back in shared memory.
#include "pbt.hpp"
#include "c18_log.hpp"
#include <array>
#include <climits>
#include <atomic>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <thread>
using pbt::Src;

void logHere(const Msg &m) { logMessage(printer, m); }
void logHere2(const std::string &a, int b, int t);

static const size_t NSINK = 6;
struct Call { uint32_t sink, pos, len, tid; };
struct Log {
  std::atomic<uint32_t> calls, bytes, inside, overlap;
  uint32_t tids[64];
  Call call[60000];
  char text[4 << 20];
};
static Log *gLog;
static int gYield;
template <int I> static void sink(const char *t) {
  Log &l = *gLog;
  if (l.inside.exchange(1, std::memory_order_relaxed)) l.overlap.store(1, std::memory_order_relaxed);
  uint32_t n = (uint32_t)strlen(t), c = l.calls.fetch_add(1, std::memory_order_relaxed), b = l.bytes.fetch_add(n, std::memory_order_relaxed);
  if (c < 60000 && b + n <= sizeof l.text) {
    l.call[c] = {(uint32_t)I, b, n, 0};
    memcpy(l.text + b, t, n);
  }
  if (gYield && c % gYield == 0) sched_yield();
  l.inside.store(0, std::memory_order_relaxed);
}
static const MasterPrinterThread::print_func sinks[NSINK] = {sink<0>, sink<1>, sink<2>, sink<3>, sink<4>, sink<5>};

struct Op { int kind; Msg msg; int sink; bool colour; }; // 0 message, 1 add sink, 2 macro
struct Phase { std::vector<std::vector<Op>> threads; std::vector<Op> before; bool ids; };

static Msg message(Src &s, size_t thread, size_t num) {
  Msg m;
  m.type = (int)s.upto(5);
  m.endl = s.chance(3, 4);
  if (m.endl && s.chance(1, 6)) m.endl = s.pick({2, -1, 256, 65536, INT_MIN});
  m.how = s.chance(1, 10);
  m.other = s.chance(1, 4);
  char tag[32];
  snprintf(tag, sizeof tag, "<%zu.%zu>", thread, num);
  m.pieces.push_back({PText, tag, 0, 0});
  size_t n = s.upto(4);
  for (size_t i = 0; i < n; i++) {
    Piece p{(PieceKind)s.upto(6), "", 0, 0};
    if (p.kind == PText || p.kind == PChars) {
      static const char *const words[] = {"text", "", "WARNING: ", "a b", "%s%n%d", "\n", "ERROR: ", "]", "č"};
      p.text = s.pick(words);
      if (s.chance(1, 6)) p.text.append(s.chance(1, 3) ? s.pick({2000, 2040, 2047, 2048, 2049, 5000}) : s.upto(4000), (char)('A' + s.upto(25)));
      if (s.chance(1, 300)) p.text.append(s.pick({65530, 65536, 66000}) + s.upto(10), 'L');
    }
    p.num = p.kind == PChar ? (long long)('a' + s.upto(25)) : s.irange(-70000, 70000);
    p.real = (double)s.irange(-4000, 4000) / 8;
    m.pieces.push_back(p);
  }
  return m;
}
static std::string textOf(const Msg &m) {
  std::ostringstream o;
  for (auto &p : m.pieces)
    switch (p.kind) {
    case PText: case PChars: o << p.text; break;
    case PInt: o << p.num; break;
    case PUint: o << (unsigned)p.num; break;
    case PFloat: o << p.real; break;
    case PChar: o << (char)p.num; break;
    case PHash: o << (short)p.num << ',' << true; break;
    }
  std::string pre = m.type == 1 ? "WARNING: " : m.type == 2 ? "ERROR: " : "";
  return pre + o.str() + (m.endl && !m.how ? "\n" : "");
}
static void runOps(const std::vector<Op> &ops) {
  for (auto &o : ops)
    if (o.kind == 1) printer.AddPrinterFunction(sinks[o.sink], o.colour);
    else if (o.kind == 2) logHere2(o.msg.pieces[0].text, (int)o.msg.pieces[1].num, o.msg.type);
    else if (o.msg.other) logOther(o.msg);
    else logHere(o.msg);
}
static void child(const std::vector<Phase> &plan) {
  size_t t0 = 1;
  gLog->tids[0] = (uint32_t)pthread_self();
  for (auto &p : plan) {
    printer.PrintThreadID(p.ids);
    runOps(p.before);
    std::atomic<int> ready(0);
    std::vector<std::thread> ths;
    for (size_t i = 0; i < p.threads.size(); i++)
      ths.emplace_back([&, i] {
        gLog->tids[t0 + i] = (uint32_t)pthread_self();
        ready++;
        while (ready.load() < (int)p.threads.size()) sched_yield();
        runOps(p.threads[i]);
      });
    for (auto &t : ths) t.join();
    t0 += p.threads.size();
  }
}
// "<thread.number>" at the start
static std::string tagOf(const std::string &t) { size_t e = t.find('>'); return t[0] != '<' || e == t.npos ? std::string() : t.substr(0, e + 1); }
static std::string cut(const std::string &t, size_t at) { return "'" + t.substr(at, 80) + "'"; }

static void scenario(Src &s, bool threads) {
  std::vector<Phase> plan;
  size_t np = 1 + s.upto(2), num = 0, tid = 1, total = 0;
  bool conc = false;
  for (size_t p = 0; p < np; p++) {
    Phase ph;
    ph.ids = s.chance(1, 3);
    size_t nb = s.upto(4);
    auto ops = [&](size_t n, size_t thread, std::vector<Op> &to, bool inThread) {
      for (size_t i = 0; i < n; i++) {
        Op o{};
        size_t k = s.upto(9);
        if ((k == 0 && inThread) || (k < 3 && !inThread)) o.kind = 1, o.sink = (int)s.upto(NSINK - 1), o.colour = s.coin();
        else {
          o.msg = message(s, thread, num++), total++;
          if (!inThread && s.chance(1, 8)) o.msg.pieces.clear(); // nothing but the end of the line, or not even that
          if (k == 9) {
            o.kind = 2, o.msg.pieces.resize(1), o.msg.pieces[0].kind = PText, o.msg.pieces.push_back({PInt, "", s.irange(-99, 99), 0});
            o.msg.type = (int)s.upto(2), o.msg.endl = true, o.msg.how = 0;
          }
        }
        to.push_back(o);
      }
    };
    if (!p && s.chance(4, 5)) { Op o{}; o.kind = 1, o.sink = (int)s.upto(NSINK - 1), o.colour = s.coin(); ph.before.push_back(o); }
    ops(nb, 0, ph.before, false);
    size_t nt = threads ? 2 + s.upto(5) : s.chance(1, 6);
    for (size_t i = 0; i < nt; i++) {
      ph.threads.emplace_back();
      ops(s.upto(threads ? 20 : 6), tid + i, ph.threads.back(), true);
    }
    tid += nt;
    conc |= nt > 1;
    plan.push_back(ph);
  }
  gYield = (int)s.upto(3);
  size_t sz = sizeof(Log);
  gLog = (Log *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (gLog == MAP_FAILED) abort();
  struct Un { size_t z; ~Un() { munmap(gLog, z); } } un{sz};
  fflush(nullptr);
  pid_t pid = fork();
  if (!pid) {
    child(plan);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
  REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "logging process ended with status " << st);
  Log &l = *gLog;
  REQUIRE(!l.overlap, "two sinks were called at the same time");
  REQUIRE(l.calls <= 60000 && l.bytes <= sizeof l.text, "too many calls");
  // what each sink got
  std::string got[NSINK];
  bool registered[NSINK] = {}, colourOf[NSINK] = {};
  struct First { size_t phase, thread, pos; };
  std::vector<First> added[NSINK]; // every place a sink is added
  for (size_t p = 0, t0 = 1; p < plan.size(); t0 += plan[p].threads.size(), p++) {
    for (size_t i = 0; i < plan[p].before.size(); i++) if (plan[p].before[i].kind == 1) added[plan[p].before[i].sink].push_back({p, 0, i});
    for (size_t t = 0; t < plan[p].threads.size(); t++)
      for (size_t i = 0; i < plan[p].threads[t].size(); i++) if (plan[p].threads[t][i].kind == 1) added[plan[p].threads[t][i].sink].push_back({p, t0 + t, i});
  }
  uint32_t end = l.calls;
  std::vector<std::string> order[NSINK];
  // severity of each message, by its tag
  std::map<std::string, int> kinds;
  for (auto &p : plan) {
    auto put = [&](const std::vector<Op> &ops) { for (auto &o : ops) if (o.kind != 1 && !o.msg.pieces.empty()) kinds[tagOf(o.msg.pieces[0].text)] = o.msg.type == 1 || o.msg.type == 2 ? o.msg.type : 0; };
    put(p.before);
    for (auto &t : p.threads) put(t);
  }
  std::string now[NSINK], colourFor[3]; // the colour set at a sink, and of warnings and errors
  bool surely[NSINK]; // added for colours wherever it is added
  for (size_t k = 0; k < NSINK; k++) {
    surely[k] = !added[k].empty();
    for (auto &a : added[k]) {
      size_t t0 = 1;
      for (size_t p = 0; p < a.phase; p++) t0 += plan[p].threads.size();
      surely[k] &= (a.thread ? plan[a.phase].threads[a.thread - t0][a.pos] : plan[a.phase].before[a.pos]).colour;
    }
  }
  for (uint32_t c = 0; c < end; c++) {
    std::string t(l.text + l.call[c].pos, l.call[c].len);
    uint32_t k = l.call[c].sink;
    if (t.size() > 3 && t[0] == '\033' && t[1] == '[' && t.back() == 'm' && t.find_first_not_of("0123456789;", 2) == t.size() - 1) {
      // colours go to sinks that may have been added for them
      bool may = false;
      for (auto &a : added[k]) {
        auto &v = a.thread ? plan[a.phase].threads : plan[a.phase].threads;
        (void)v;
        size_t t0 = 1;
        for (size_t p = 0; p < a.phase; p++) t0 += plan[p].threads.size();
        const Op &o = a.thread ? plan[a.phase].threads[a.thread - t0][a.pos] : plan[a.phase].before[a.pos];
        may |= o.colour;
      }
      now[k] = t == "\033[0m" ? "" : t;
      REQUIRE(may, "colours sent to sink " << k << " which was never added for them");
      continue;
    }
    got[k] += t;
    size_t lt = t.compare(0, 9, "WARNING: ") ? t.compare(0, 7, "ERROR: ") ? 0 : 7 : 9;
    auto kind = kinds.find(tagOf(t.substr(lt)));
    if (kind != kinds.end() && !kind->first.empty() && surely[k]) {
      int y = kind->second;
      REQUIRE(now[k].empty() == !y, "sink " << k << " got " << cut(t, 0) << " with colour '" << now[k].substr(now[k].empty() ? 0 : 1) << "' set");
      if (y) {
        if (colourFor[y].empty()) colourFor[y] = now[k];
        REQUIRE_EQ(colourFor[y].substr(1), now[k].substr(1), "colour of " << cut(t, 0));
        REQUIRE(colourFor[1] != colourFor[2], "warnings and errors have the same colour");
        s.label("coloured");
      }
    }
  }
  for (size_t k = 0; k < NSINK; k++) REQUIRE(now[k].empty(), "a colour is left set at sink " << k);
  for (size_t k = 0; k < NSINK; k++) {
    size_t at = 0, t0 = 1;
    bool any = !added[k].empty();
    if (!any) { REQUIRE(got[k].empty(), "text in a sink never added"); continue; }
    auto line = [&](const Phase &p, size_t thread, const Op &o) {
      std::string t;
      if (p.ids) { char b[40]; snprintf(b, sizeof b, "Thread[0x%X] ", l.tids[thread]); t = b; }
      return t + textOf(o.msg);
    };
    bool have = false; // added before
    for (size_t p = 0; p < plan.size(); t0 += plan[p].threads.size(), p++) {
      for (auto &o : plan[p].before) {
        if (o.kind == 1) { have |= (size_t)o.sink == k; continue; }
        if (!have) continue;
        std::string w = line(plan[p], 0, o);
        REQUIRE(got[k].compare(at, w.size(), w) == 0, "sink " << k << " has " << cut(got[k], at) << " where the main thread logged " << cut(w, 0));
        at += w.size();
        order[k].push_back(w);
      }
      size_t nt = plan[p].threads.size();
      std::vector<std::vector<std::string>> lines(nt);
      std::vector<size_t> pos(nt, 0);
      std::vector<bool> may(nt, !have), own(nt, have); // may: start anywhere until something of the thread was seen
      bool addedHere = false;
      for (size_t t = 0; t < nt; t++) {
        bool mine = have;
        for (auto &o : plan[p].threads[t]) {
          if (o.kind == 1) { if ((size_t)o.sink == k) mine = true, addedHere = true; continue; }
          lines[t].push_back((mine ? "+" : "-") + line(plan[p], t0 + t, o));
        }
      }
      if (have || addedHere) {
        for (;;) {
          bool step = false;
          for (size_t t = 0; t < nt && !step; t++) {
            size_t i = pos[t];
            // messages of before the sink was added by another thread may be missing
            for (;; i++) {
              if (i >= lines[t].size()) break;
              std::string w = lines[t][i].substr(1);
              if (at < got[k].size() && got[k].compare(at, w.size(), w) == 0) {
                at += w.size(), pos[t] = i + 1, may[t] = false, step = true;
                order[k].push_back(w);
                break;
              }
              if (!may[t] || lines[t][i][0] == '+') break;
            }
          }
          if (!step) break;
        }
        for (size_t t = 0; t < nt; t++)
          for (size_t i = pos[t]; i < lines[t].size(); i++)
            REQUIRE(may[t] && lines[t][i][0] == '-', "sink " << k << " has " << cut(got[k], at) << " and no message " << cut(lines[t][i], 1) << " of thread " << t0 + t);
        have |= addedHere;
      }
    }
    REQUIRE(at == got[k].size(), "sink " << k << " has more text " << cut(got[k], at));
  }
  // every sink got messages in the same order
  for (size_t a = 0; a < NSINK; a++)
    for (size_t b = 0; b < a; b++) {
      auto &x = order[a].size() < order[b].size() ? order[a] : order[b], &y = &x == &order[a] ? order[b] : order[a];
      REQUIRE(std::equal(x.rbegin(), x.rend(), y.rbegin()), "sinks " << a << " and " << b << " got messages in different order");
    }
  if (conc) s.label("concurrent");
  s.nontrivial(total > 2);
  s.note([&](std::ostream &o) { o << plan.size() << " phases, " << tid - 1 << " threads, " << total << " messages, " << end << " sink calls"; });
}
// one thread switches the numbers of threads on and off while others log
PBT_TEST_THREADED(switching, 300, 6000) {
  size_t nt = 1 + s.upto(3), nm = 1 + s.upto(30), ns = 1 + s.upto(40);
  size_t sz = sizeof(Log);
  gYield = (int)s.upto(3);
  gLog = (Log *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (gLog == MAP_FAILED) abort();
  struct Un { size_t z; ~Un() { munmap(gLog, z); } } un{sz};
  fflush(nullptr);
  pid_t pid = fork();
  if (!pid) {
    printer.AddPrinterFunction(sinks[0], false);
    std::atomic<size_t> ready(0);
    std::vector<std::thread> ths;
    for (size_t t = 0; t <= nt; t++)
      ths.emplace_back([&, t] {
        ready++;
        while (ready.load() <= nt) sched_yield();
        if (!t) for (size_t i = 0; i < ns; i++) printer.PrintThreadID(i & 1);
        else for (size_t i = 0; i < nm; i++) printline("<" << t << '.' << i << ">");
      });
    for (auto &t : ths) t.join();
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
  REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "logging process ended with status " << st);
  std::istringstream in(std::string(gLog->text, gLog->bytes));
  std::vector<size_t> next(nt + 1);
  std::string l;
  size_t lines = 0;
  while (std::getline(in, l)) {
    if (!l.compare(0, 9, "Thread[0x")) {
      size_t e = l.find_first_not_of("0123456789ABCDEF", 9);
      REQUIRE(e != l.npos && !l.compare(e, 2, "] "), "line " << l);
      l = l.substr(e + 2);
    }
    unsigned t = 0, i = 0;
    int used = 0;
    REQUIRE(sscanf(l.c_str(), "<%u.%u>%n", &t, &i, &used) == 2 && (size_t)used == l.size() && t && t <= nt, "line " << l);
    REQUIRE_EQ((size_t)i, next[t]++, "message of thread " << t);
    lines++;
  }
  REQUIRE_EQ(lines, nt * nm, "lines logged");
  s.nontrivial(nt > 1);
}
// colours asked for directly
PBT_TEST(colours, 600, 12000) {
  gYield = 0;
  size_t sz = sizeof(Log), n = 1 + s.upto(6);
  gLog = (Log *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (gLog == MAP_FAILED) abort();
  struct Un { size_t z; ~Un() { munmap(gLog, z); } } un{sz};
  bool col[NSINK];
  size_t ns = 1 + s.upto(NSINK - 1);
  for (bool &c : col) c = s.coin();
  std::vector<std::array<int, 3>> ops;
  std::string want[NSINK];
  bool large = false;
  for (size_t i = 0; i < n; i++) {
    std::array<int, 3> c;
    bool restore = s.chance(1, 3);
    for (int &v : c) v = restore ? -1 : s.chance(1, 6) ? (large = true, (int)s.bits(32)) : (int)s.upto(255);
    if (c[0] == -1) c[1] = c[2] = -1, restore = true;
    ops.push_back(c);
    for (size_t k = 0; k < ns; k++)
      if (col[k]) want[k] += restore ? "\033[0m" : "\033[38;2;" + std::to_string(c[0]) + ';' + std::to_string(c[1]) + ';' + std::to_string(c[2]) + 'm';
  }
  fflush(nullptr);
  pid_t pid = fork();
  if (!pid) {
    for (size_t k = 0; k < ns; k++) printer.AddPrinterFunction(sinks[k], col[k]);
    for (auto &c : ops) if (c[0] == -1) RestoreConsoleTextColor(); else SetConsoleTextColor(c[0], c[1], c[2]);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
  REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "process setting colours ended with status " << st);
  std::string got[NSINK];
  for (uint32_t i = 0; i < gLog->calls; i++) got[gLog->call[i].sink].append(gLog->text + gLog->call[i].pos, gLog->call[i].len);
  for (size_t k = 0; k < NSINK; k++) REQUIRE(got[k] == want[k], "sink " << k << (col[k] ? " with" : " without") << " colours got '" << got[k].substr(got[k].empty() ? 0 : 1) << "', not '" << want[k].substr(want[k].empty() ? 0 : 1) << "'");
  if (large) s.label("out of range");
  s.nontrivial();
  s.note([&](std::ostream &o) { o << ops.size() << " colours, " << ns << " sinks"; });
}
PBT_TEST(sequential, 3000, 60000) { scenario(s, false); }
PBT_TEST_THREADED(concurrent, 3000, 60000) { scenario(s, true); }
