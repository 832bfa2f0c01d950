// C19: threaded queues; the number of processors is what the case says.
#include "pbt.hpp"
#include "datas/multi_thread.hpp"
#include <atomic>
#include <memory>
#include <mutex>
#include <sched.h>
using pbt::Src;
static std::atomic<unsigned> gCores(4);
unsigned std::thread::hardware_concurrency() noexcept { return gCores.load(); }

struct Body {
  std::vector<std::atomic<int>> *ran, *done;
  std::vector<uint64_t> *out;
  std::atomic<int> *running, *most;
  const std::vector<uint8_t> *work;
  bool throws;
  void go(size_t i) const {
    int r = ++*running, m = *most;
    while (m < r && !most->compare_exchange_weak(m, r));
    (*ran)[i]++;
    uint8_t w = (*work)[i];
    if (w & 1) std::this_thread::yield();
    if (w & 2) for (volatile int k = 0; k < w * 40; k++);
    if ((w & 28) == 28) std::this_thread::sleep_for(std::chrono::microseconds(w * 4));
    (*out)[i] = i * 7 + 1;
    --*running;
    (*done)[i]++;
    if (throws && (w & 0x60) == 0x60) throw std::runtime_error("failed item");
  }
};
struct VoidBody : Body { void operator()(size_t i) const { go(i); } };
struct IntBody : Body { int operator()(size_t i) { go(i); return (int)i; } };
struct StringBody : Body { std::string operator()(size_t i) { go(i); return std::string(i % 50, 'x'); } };

PBT_TEST_THREADED(queues, 1200, 30000) {
  size_t n = s.chance(1, 8) ? 0 : s.chance(1, 8) ? s.upto(400) : s.upto(40);
  unsigned cores = s.pick({1u, 2u, 3u, 4u, 8u, 16u, 33u, 0u});
  gCores = cores;
  std::vector<std::atomic<int>> ran(n), done(n);
  for (size_t i = 0; i < n; i++) ran[i] = 0, done[i] = 0;
  std::vector<uint64_t> out(n);
  std::atomic<int> running(0), most(0);
  std::vector<uint8_t> work(n);
  size_t kind = s.upto(4);
  for (size_t i = 0; i < n; i++) work[i] = kind == 0 ? 0 : kind == 4 ? (i == 0 ? 0xff : 0) : (uint8_t)s.upto(i < 60 ? 255 : 0);
  bool throws = s.chance(1, 3);
  Body b{&ran, &done, &out, &running, &most, &work, throws};
  int form = (int)s.upto(4);
  if (throws) s.label("failing items");
  if (!n) s.label("empty");
  if (n > cores) s.label("longer than processors");
  switch (form) {
  case 0: { VoidBody f; (Body &)f = b; RunThreadedQueue(n, f); break; }
  case 1: { IntBody f; (Body &)f = b; RunThreadedQueue(n, f); break; }
  case 2: { StringBody f; (Body &)f = b; RunThreadedQueue(n, std::move(f)); break; }
  case 3: RunThreadedQueue(n, [&](size_t i) { b.go(i); }); break;
  default: { const auto f = [b](size_t i) { b.go(i); return i; }; RunThreadedQueue(n, f); }
  }
  REQUIRE_EQ(running.load(), 0, "items still running after the queue of " << n);
  for (size_t i = 0; i < n; i++) {
    REQUIRE_EQ(ran[i].load(), 1, "runs of item " << i << " of " << n << " on " << cores << " processors");
    REQUIRE_EQ(done[i].load(), 1, "item " << i << " of " << n << " finished");
    REQUIRE_EQ(out[i], i * 7 + 1, "result of item " << i);
  }
  REQUIRE(most.load() <= (int)std::max(cores, 1u), most.load() << " items at once on " << cores << " processors");
  s.nontrivial(n > 1);
  s.note([&](std::ostream &o) { o << n << " items, " << cores << " processors, " << most.load() << " at once" << (throws ? ", some fail" : ""); });
}
// more items than narrow counters hold
PBT_TEST_THREADED(long_queues, 4, 40) {
  size_t n = s.pick({65535, 65536, 65537}) + s.upto(60);
  gCores = (unsigned)(1 + s.upto(31));
  std::vector<std::atomic<uint8_t>> ran(n);
  for (auto &r : ran) r = 0;
  RunThreadedQueue(n, [&](size_t i) { ran.at(i)++; });
  for (size_t i = 0; i < n; i++) REQUIRE_EQ((int)ran[i].load(), 1, "runs of item " << i << " of " << n);
  s.nontrivial();
}
// queues started by items of a queue
PBT_TEST_THREADED(nested, 150, 3000) {
  size_t n = 1 + s.upto(4), m = s.upto(6);
  gCores = (unsigned)(1 + s.upto(3));
  std::vector<std::atomic<int>> ran(n * m);
  for (auto &r : ran) r = 0;
  RunThreadedQueue(n, [&](size_t i) { RunThreadedQueue(m, [&, i](size_t k) { ran[i * m + k]++; }); });
  for (size_t i = 0; i < ran.size(); i++) REQUIRE_EQ(ran[i].load(), 1, "runs of item " << i % m << " of queue " << i / m);
  s.nontrivial(m > 1);
}
