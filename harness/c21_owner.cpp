// C21: containers over foreign storage, conditional owners, lists.
#include "pbt.hpp"
#include "datas/allocator_hybrid.hpp"
#include "uni/list_vector.hpp"
#include "uni/skeleton.hpp"
#include <memory>
#include <set>
#include <sys/mman.h>
using pbt::Src;

// Blocks of memory the containers asked for and have not given back. (The plain
// variant only: the sanitizers bring operators of their own.)
static long gBlocks;
static bool gTracking;
struct Tracking { Tracking() { gTracking = true; } ~Tracking() { gTracking = false; } };
#define TR(...) do { Tracking tracking_; __VA_ARGS__; } while (0)
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
struct alignas(16) BlockHead { uint64_t tracked; };
void *operator new(size_t n) {
  auto *h = (BlockHead *)malloc(n + sizeof(BlockHead));
  if (!h) throw std::bad_alloc();
  h->tracked = gTracking;
  gBlocks += gTracking;
  return h + 1;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept {
  if (!p) return;
  auto *h = (BlockHead *)p - 1;
  gBlocks -= (long)h->tracked;
  free(h);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
#endif

// ---------------------------------------------------------------- linked storage
struct Pod {
  uint32_t a, b, c;
  bool operator==(const Pod &o) const { return a == o.a && b == o.b && c == o.c; }
};
static void set(char &c, uint64_t v) { c = (char)v; }
static void set(uint16_t &c, uint64_t v) { c = (uint16_t)v; }
static void set(double &c, uint64_t v) { c = (double)(int32_t)v; }
static void set(Pod &c, uint64_t v) { c = Pod{(uint32_t)v, (uint32_t)(v >> 32), (uint32_t)(v * 7)}; }

template <class T> struct Ext { // foreign storage, exactly sized
  T *mem = nullptr;
  size_t n = 0;
  std::vector<T> last; // contents when last looked at
  int user = -1;       // vector that views it
  ~Ext() { free(mem); }
};
template <class T> static void linked(Src &s) {
  using V = std::vector<T, es::allocator_hybrid<T>>;
  const size_t NV = 3, NE = 3;
  // the vectors live longer than the storage check, and end before the storage
  Ext<T> ext[NE];
  uint64_t seq = s.bits(16);
  for (auto &e : ext) {
    e.n = s.upto(20);
    e.mem = (T *)malloc(std::max<size_t>(e.n, 1) * sizeof(T));
    for (size_t i = 0; i < e.n; i++) set(e.mem[i], seq = seq * 6364136223846793005ull + 1442695040888963407ull);
    e.last.assign(e.mem, e.mem + e.n);
  }
  std::vector<std::unique_ptr<V>> v;
  std::vector<std::vector<T>> m(NV);
  int view[NV]; // storage each vector looks at
  for (size_t i = 0; i < NV; i++) v.emplace_back(new V()), view[i] = -1;
  const long blocks = gBlocks;
  std::ostringstream hist;
  size_t links = 0, grown = 0, nops = 1 + s.size(24);
  auto unview = [&](size_t i) { if (view[i] >= 0) ext[view[i]].user = -1; view[i] = -1; };
  for (size_t k = 0; k < nops; k++) {
    size_t i = s.upto(NV - 1), j = (i + 1 + s.upto(NV - 2)) % NV;
    V &x = *v[i];
    auto &y = m[i];
    T val;
    set(val, seq = seq * 6364136223846793005ull + 1);
    int op = (int)s.upto(16);
    hist << " " << op << ":" << i;
    const T *oldData = x.data();
    bool maySteal = false;
    switch (op) {
    case 0: case 1: case 2: { // look at foreign storage
      size_t e = s.upto(NE - 1);
      if (ext[e].user >= 0) { size_t u = ext[e].user; TR(es::allocator_hybrid_base::DisposeStorage(*v[u])); m[u].clear(); unview(u); }
      size_t n = ext[e].n ? 1 + s.upto(ext[e].n - 1) : 0;
      if (s.coin()) n = ext[e].n;
      unview(i);
      std::vector<T> before(ext[e].mem, ext[e].mem + ext[e].n);
      if (s.coin()) TR(es::allocator_hybrid_base::LinkStorage(x, ext[e].mem, n));
      else TR(es::allocator_hybrid_base::LinkStorage(x, ext[e].mem, ext[e].mem + n));
      y.assign(before.begin(), before.begin() + n);
      if (n) {
        view[i] = (int)e, ext[e].user = (int)i;
        REQUIRE(x.data() == ext[e].mem, "linked container does not look at the storage:" << hist.str());
        REQUIRE(x.get_allocator().buffer == ext[e].mem, "allocator without the linked storage");
      }
      ext[e].last = before;
      links++;
      hist << "(link " << e << "/" << n << ")";
      break;
    }
    case 3: TR(es::allocator_hybrid_base::DisposeStorage(x)); y.clear(); unview(i);
      REQUIRE(x.get_allocator().buffer == nullptr && x.empty(), "disposed container keeps storage"); break;
    case 4: case 5: TR(x.push_back(val)); y.push_back(val); break;
    case 6: if (!y.empty()) x.pop_back(), y.pop_back(); break;
    case 7: { size_t n = s.upto(40); TR(x.resize(n, val)); y.resize(n, val); break; }
    case 8: { size_t p = s.upto(y.size()), n = s.upto(5); TR(x.insert(x.begin() + p, n, val)); y.insert(y.begin() + p, n, val); break; }
    case 9: { size_t p = s.upto(y.size()), n = s.upto(y.size() - p); TR(x.erase(x.begin() + p, x.begin() + p + n)); y.erase(y.begin() + p, y.begin() + p + n); break; }
    case 10: if (!y.empty()) { size_t p = s.upto(y.size() - 1); x[p] = val, y[p] = val; } break;
    case 11: if (s.coin()) x.clear(), y.clear(); else { size_t n = s.upto(50); TR(x.reserve(n)); } break;
    case 12: { // copies are taken from containers of their own storage or from viewing ones
      std::vector<T> w = m[j];
      if (s.coin()) { TR(x = *v[j]); if (view[i] >= 0 && x.data() != ext[view[i]].mem) unview(i); }
      else { unview(i); TR(V *z = new V(*v[j]); v[i].reset(z)); }
      m[i] = w;
      if (view[j] >= 0 && view[i] != view[j] && v[i]->data() == ext[view[j]].mem) { // shares the view: the source goes
        es::allocator_hybrid_base::DisposeStorage(*v[j]);
        view[i] = view[j], ext[view[i]].user = (int)i, view[j] = -1, m[j].clear();
      }
      hist << "(copy " << j << ")";
      break;
    }
    case 13: { // move, the source is usable again
      unview(i);
      if (s.coin()) TR(x = std::move(*v[j])); else TR(v[i].reset(new V(std::move(*v[j]))));
      m[i] = m[j], m[j].clear();
      v[j]->clear();
      if (view[j] >= 0) view[i] = view[j], ext[view[i]].user = (int)i, view[j] = -1;
      hist << "(move " << j << ")";
      break;
    }
    case 14: {
      if (s.coin()) TR(std::swap(*v[i], *v[j])); else TR(v[i]->swap(*v[j]));
      m[i].swap(m[j]), std::swap(view[i], view[j]);
      if (view[i] >= 0) ext[view[i]].user = (int)i;
      if (view[j] >= 0) ext[view[j]].user = (int)j;
      hist << "(swap " << j << ")";
      break;
    }
    case 15: { std::vector<T> w; size_t n = s.upto(30); for (size_t q = 0; q < n; q++) { set(val, seq = seq * 6364136223846793005ull + 3); w.push_back(val); } TR(x.assign(w.begin(), w.end())); y = w; break; }
    default: TR(x.shrink_to_fit()); maySteal = true; break;
    }
    (void)oldData, (void)maySteal;
    for (size_t q = 0; q < NV; q++) {
      REQUIRE(v[q]->size() == m[q].size(), "container " << q << " has " << v[q]->size() << " items, not " << m[q].size() << ":" << hist.str());
      REQUIRE(std::equal(m[q].begin(), m[q].end(), v[q]->begin()), "container " << q << " has other items:" << hist.str());
      if (view[q] >= 0 && v[q]->data() != ext[view[q]].mem) grown++, unview(q);
      for (size_t e = 0; e < NE; e++)
        REQUIRE(view[q] == (int)e || m[q].empty() || v[q]->data() + v[q]->capacity() <= ext[e].mem || v[q]->data() >= ext[e].mem + ext[e].n,
                "container " << q << " uses storage " << e << " which it does not view:" << hist.str());
    }
    for (size_t e = 0; e < NE; e++) {
      size_t from = 0;
      if (ext[e].user >= 0) {
        from = ext[e].n; // a viewing container may change what it views
        ext[e].last.assign(ext[e].mem, ext[e].mem + ext[e].n);
      }
      for (size_t q = from; q < ext[e].n; q++)
        REQUIRE(ext[e].last[q] == ext[e].mem[q], "storage " << e << " changed at " << q << " by a container that does not view it:" << hist.str());
    }
  }
  for (size_t q = 0; q < NV; q++) v[q].reset();
  REQUIRE_EQ(gBlocks, blocks, "blocks of memory kept by ended containers:" << hist.str());
  for (auto &e : ext) for (size_t q = 0; q < e.n; q++) REQUIRE(e.user >= 0 || e.last[q] == e.mem[q], "storage changed by an ending container:" << hist.str());
  if (links) s.label("linked");
  if (grown) s.label("grown out of foreign storage");
  s.nontrivial(links > 0 && nops > 1);
  s.note([&](std::ostream &o) { o << sizeof(T) << "-byte items:" << hist.str(); });
}
PBT_TEST(linked_storage, 24000, 600000) {
  switch (s.upto(3)) {
  case 0: return linked<char>(s);
  case 1: return linked<uint16_t>(s);
  case 2: return linked<double>(s);
  default: return linked<Pod>(s);
  }
}
// constant storage can be looked at
template <class T> static void constant(Src &s) {
  using V = std::vector<T, es::allocator_hybrid<T>>;
  static char *page = (char *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(page, 4096, PROT_READ | PROT_WRITE);
  mprotect(page + 4096, 4096, PROT_NONE);
  size_t n = 1 + s.upto(100);
  T *mem = (T *)(page + 4096) - n;
  std::vector<T> want(n);
  uint64_t seq = s.bits(32);
  for (size_t i = 0; i < n; i++) set(mem[i], seq = seq * 6364136223846793005ull + 1442695040888963407ull), want[i] = mem[i];
  mprotect(page, 4096, PROT_READ);
  {
    V v;
    if (s.coin()) v.resize(s.upto(10));
    es::allocator_hybrid_base::LinkStorage(v, mem, n);
    REQUIRE(v.data() == mem && v.size() == n && std::equal(want.begin(), want.end(), v.begin()), "constant storage of " << n);
    if (s.coin()) {
      V w = std::move(v);
      REQUIRE(w.size() == n && std::equal(want.begin(), want.end(), w.begin()), "moved view of constant storage of " << n);
    }
    if (s.coin()) {
      V w;
      if (s.coin()) w = v; else { V z(v); w = std::move(z); }
      REQUIRE(w.size() == v.size() && std::equal(v.begin(), v.end(), w.begin()), "copied view of constant storage of " << n);
    }
    if (s.coin() && v.size()) {
      T x = want[0];
      v.push_back(x);
      want.push_back(x);
      REQUIRE(v.size() == n + 1 && std::equal(want.begin(), want.end(), v.begin()), "grown out of constant storage of " << n);
    }
    if (s.coin()) es::allocator_hybrid_base::DisposeStorage(v);
  }
  for (size_t i = 0; i < n; i++) REQUIRE(mem[i] == want[i], "constant storage");
  s.nontrivial(n > 1);
}
PBT_TEST(constant_storage, 6000, 100000) {
  switch (s.upto(3)) {
  case 0: return constant<char>(s);
  case 1: return constant<uint16_t>(s);
  case 2: return constant<double>(s);
  default: return constant<Pod>(s);
  }
}

// ---------------------------------------------------------------- owners
struct Reg {
  std::map<int, int> died; // id -> times destroyed
  std::set<int> alive;
};
static Reg *gReg;
struct Obj : uni::Base {
  int id;
  explicit Obj(int i) : id(i) { gReg->alive.insert(i); }
  Obj(const Obj &) = delete;
  ~Obj() override { gReg->died[id]++, gReg->alive.erase(id); }
  virtual int what() const { return id; }
};
struct Obj2 : Obj {
  char more[40] = {};
  using Obj::Obj;
  int what() const override { return id * 2; }
};
using El = uni::Element<Obj>;
using ElC = uni::Element<const Obj>;
PBT_TEST(handles, 40000, 1000000) {
  Reg reg;
  gReg = &reg;
  struct Model { int id = -1; bool own = false; };
  std::set<int> owned, lent;
  std::ostringstream hist;
  size_t nown = 0, nlent = 0;
  {
    std::vector<std::unique_ptr<Obj>> pool; // what is lent
    int next = 0;
    const size_t N = 5;
    std::vector<El> slot(N);
    std::vector<Model> sm(N);
    std::vector<ElC> list;
    std::vector<Model> lm;
    uni::BaseElementConst base;
    Model bm;
    auto dead = [&](Model &x) { if (x.id >= 0 && x.own) owned.erase(x.id); x = Model(); };
    auto fresh = [&](Model &x, bool big) -> El {
      bool own = s.coin();
      int id = next++;
      Obj *o = big ? new Obj2(id) : new Obj(id);
      x.id = id, x.own = own;
      if (own) { owned.insert(id), nown++; int f = (int)s.upto(3);
        if (f == 0) return El(o);
        if (f == 1) return El(o, true);
        std::unique_ptr<Obj> u(o);
        if (f == 2) { El e = uni::ToElement(u); REQUIRE(!u, "ToElement leaves the pointer"); return e; }
        return uni::ToElement(std::move(u));
      }
      pool.emplace_back(o), lent.insert(id), nlent++;
      return El(o, false);
    };
    auto check = [&] {
      auto same = [&](const Obj *o, const Model &x, const char *where) {
        REQUIRE_EQ(o ? o->id : -1, x.id, where << hist.str());
        if (o) REQUIRE(o->what() == o->id || o->what() == 2 * o->id, "object" << hist.str());
      };
      for (size_t i = 0; i < N; i++) same(slot[i].get(), sm[i], "handle");
      REQUIRE_EQ(list.size(), lm.size(), "list size");
      for (size_t i = 0; i < list.size(); i++) same(list[i].get(), lm[i], "handle in list");
      std::set<int> want = owned;
      want.insert(lent.begin(), lent.end());
      for (int i : want) REQUIRE(reg.alive.count(i), (lent.count(i) ? "borrowed" : "owned") << " object " << i << " was destroyed early:" << hist.str());
      for (int i : reg.alive) REQUIRE(want.count(i), "owned object " << i << " was not destroyed:" << hist.str());
      for (auto &d : reg.died) REQUIRE_EQ(d.second, 1, "object " << d.first << " destroyed:" << hist.str());
    };
    size_t nops = 1 + s.size(24);
    for (size_t k = 0; k < nops; k++) {
      size_t i = s.upto(N - 1), j = (i + 1 + s.upto(N - 2)) % N;
      int op = (int)s.upto(12);
      hist << " " << op << ":" << i << "," << j;
      switch (op) {
      case 0: case 1: { Model x; El e = fresh(x, s.coin()); slot[i] = std::move(e); dead(sm[i]); sm[i] = x; break; }
      case 2: slot[i] = std::move(slot[j]); dead(sm[i]); sm[i] = sm[j]; sm[j] = Model(); break;
      case 3: { El t(std::move(slot[i])); slot[j] = std::move(t); dead(sm[j]); sm[j] = sm[i]; sm[i] = Model(); break; }
      case 4: std::swap(slot[i], slot[j]); std::swap(sm[i], sm[j]); break;
      case 5: if (s.coin()) slot[i].reset(); else slot[i] = nullptr; dead(sm[i]); break;
      case 6: list.push_back(std::move(slot[i])); lm.push_back(sm[i]); sm[i] = Model(); break;
      case 7: { size_t p = s.upto(lm.size()); list.insert(list.begin() + p, std::move(slot[i])); lm.insert(lm.begin() + p, sm[i]); sm[i] = Model(); break; }
      case 8: if (!lm.empty()) { size_t p = s.upto(lm.size() - 1); list.erase(list.begin() + p); Model x = lm[p]; dead(x); lm.erase(lm.begin() + p); } break;
      case 9: if (s.chance(1, 3)) { list.clear(); for (auto &x : lm) dead(x); lm.clear(); } break;
      case 10: base = std::move(slot[i]); dead(bm); bm = sm[i]; sm[i] = Model(); break;
      case 11: { // released: somebody else's now
        Obj *o = slot[i].release();
        if (o && sm[i].own) { owned.erase(sm[i].id), lent.insert(sm[i].id), pool.emplace_back(o); }
        sm[i] = Model();
        break;
      }
      default: if (lm.size() > 1) { std::reverse(list.begin(), list.end()); std::reverse(lm.begin(), lm.end()); } break;
      }
      check();
    }
    slot.clear(), list.clear(), base.reset();
    owned.clear();
    hist << " end";
    for (int i : lent) REQUIRE(reg.alive.count(i), "borrowed object " << i << " was destroyed with its handle:" << hist.str());
    REQUIRE_EQ(reg.alive.size(), lent.size(), "objects left:" << hist.str());
    for (auto &d : reg.died) REQUIRE_EQ(d.second, 1, "object " << d.first << " destroyed:" << hist.str());
  }
  REQUIRE(reg.alive.empty(), "objects left");
  s.nontrivial(nown && nlent);
  s.note([&](std::ostream &o) { o << nown << " owned, " << nlent << " borrowed:" << hist.str(); });
}

#ifndef __SANITIZE_ADDRESS__
// which of the blocks under watch were freed
static void *gWatch[64];
static int gFreed[64];
static size_t gNumWatch;
extern "C" void __libc_free(void *);
extern "C" void free(void *p) {
  for (size_t i = 0; i < gNumWatch; i++)
    if (gWatch[i] == p && p) { gFreed[i]++; return; } // kept, so that it is not handed out again
  __libc_free(p);
}
PBT_TEST(c_handles, 12000, 300000) {
  using P = std::unique_ptr<char, es::deleter_hybrid_c>;
  size_t n = 1 + s.upto(12);
  bool own[16];
  int ends[16] = {};
  std::vector<P> v;
  {
    gNumWatch = 0;
    void *blocks[16];
    for (size_t i = 0; i < n; i++) blocks[i] = malloc(1 + s.upto(100)), gFreed[i] = 0;
    memcpy(gWatch, blocks, sizeof blocks);
    gNumWatch = n;
    struct End { ~End() { size_t c = gNumWatch; gNumWatch = 0; for (size_t i = 0; i < c; i++) free(gWatch[i]); } } end;
    for (size_t i = 0; i < n; i++) {
      own[i] = s.coin();
      switch (s.upto(2)) {
      case 0: if (own[i]) v.emplace_back((char *)gWatch[i]); else v.emplace_back((char *)gWatch[i], false); break;
      case 1: v.emplace_back((char *)gWatch[i], own[i]); break;
      default: { P p((char *)gWatch[i], es::deleter_hybrid_c(own[i])); v.insert(v.begin(), std::move(p)); }
      }
    }
    size_t k = s.upto(n);
    std::set<void *> gone;
    for (size_t i = 0; i < k; i++) { size_t p = s.upto(v.size() - 1); gone.insert(v[p].get()); v.erase(v.begin() + p); }
    for (size_t i = 0; i < n; i++) REQUIRE_EQ(gFreed[i], own[i] && gone.count(gWatch[i]) ? 1 : 0, (own[i] ? "owned" : "borrowed") << " block " << i << " freed, handle " << (gone.count(gWatch[i]) ? "gone" : "there"));
    v.clear();
    for (size_t i = 0; i < n; i++) REQUIRE_EQ(gFreed[i], own[i] ? 1 : 0, (own[i] ? "owned" : "borrowed") << " block " << i << " freed at the end");
  }
  (void)ends;
  s.nontrivial(n > 1);
}
#endif

// ---------------------------------------------------------------- lists
struct Item : uni::Base { virtual int id() const = 0; };
struct ItemA : Item {
  int n;
  ItemA(int i = 0) : n(i) { gReg->alive.insert(i); }
  ItemA(const ItemA &o) : n(o.n + 100000) { gReg->alive.insert(n); }
  ItemA(ItemA &&o) noexcept : n(o.n) { o.n = -1; }
  ItemA &operator=(ItemA &&o) noexcept { if (n >= 0) reg(n); n = o.n; o.n = -1; return *this; }
  static void reg(int n) { gReg->died[n]++, gReg->alive.erase(n); }
  ~ItemA() override { if (n >= 0) reg(n); }
  int id() const override { return n; }
  operator uni::Element<const Item>() const { return {static_cast<const Item *>(this), false}; }
};
struct OwnedList : uni::List<Item> { // makes its elements when asked
  size_t n;
  int first;
  size_t Size() const override { return n; }
  uni::Element<const Item> At(size_t i) const override { return uni::Element<const Item>(new ItemA(first + (int)i)); }
};
template <class L> static void walk(const L &l, const std::vector<int> &want, const char *what) {
  REQUIRE_EQ(l.Size(), want.size(), what << " size");
  size_t k = 0;
  for (auto e : l) {
    REQUIRE(k < want.size(), what << " has more elements than " << want.size());
    REQUIRE_EQ(e->id(), want[k], what << " element " << k);
    k++;
  }
  REQUIRE_EQ(k, want.size(), what << " elements visited");
  k = 0;
  auto i = l.begin(), e = l.end();
  for (; i != e; k++) {
    REQUIRE(!(i == e), what << " iterator equal and different");
    REQUIRE(k < want.size(), what << " has more elements than " << want.size());
    auto old = k & 1 ? i++ : i;
    if (!(k & 1)) { auto &r = ++i; REQUIRE(&r == &i, "++ returns another object"); }
    REQUIRE_EQ((*old)->id(), want[k], what << " element of old iterator " << k);
    REQUIRE(old != i && !(old == i), what << " iterator equal to its next");
  }
  REQUIRE_EQ(k, want.size(), what << " elements visited by iterators");
  REQUIRE(i == e, what << " iterator at its end");
  for (size_t p = 0; p < want.size(); p++) {
    REQUIRE_EQ(l[p]->id(), want[p], what << " element by index " << p);
    REQUIRE_EQ(l.At(p)->id(), want[p], what << " element by At " << p);
  }
}
struct ValList : uni::Vector<int> {
  std::vector<int> v;
  size_t Size() const override { return v.size(); }
  const int At(size_t i) const override { return v.at(i) * 3; }
};
PBT_TEST(lists, 30000, 600000) {
  Reg reg;
  gReg = &reg;
  std::ostringstream hist;
  {
    uni::VectorList<Item, ItemA> vl;
    uni::PolyVectorList<Item, Item> pl;
    uni::PolyVectorList<Item, ItemA, std::shared_ptr> sl;
    std::vector<int> vm, pm, shm;
    std::set<int> live;
    int next = 0;
    size_t nops = s.size(20);
    for (size_t k = 0; k < nops; k++) {
      int op = (int)s.upto(8);
      hist << " " << op;
      switch (op) {
      case 0: case 1: vl.storage.emplace_back(next), vm.push_back(next), live.insert(next++); break;
      case 2: case 3: pl.storage.emplace_back(new ItemA(next)), pm.push_back(next), live.insert(next++); break;
      case 4: sl.storage.emplace_back(new ItemA(next)), shm.push_back(next), live.insert(next++); break;
      case 5: if (!vm.empty()) { size_t p = s.upto(vm.size() - 1); live.erase(vm[p]); vl.storage.erase(vl.storage.begin() + p), vm.erase(vm.begin() + p); } break;
      case 6: if (!pm.empty()) { size_t p = s.upto(pm.size() - 1); live.erase(pm[p]); pl.storage.erase(pl.storage.begin() + p), pm.erase(pm.begin() + p); } break;
      case 7: { uni::PolyVectorList<Item, Item> o = std::move(pl); pl.storage.clear(); pl.storage = std::move(o.storage); break; }
      default: {
        OwnedList ol;
        ol.n = s.upto(5), ol.first = 1000;
        std::vector<int> want;
        for (size_t q = 0; q < ol.n; q++) want.push_back(1000 + (int)q);
        walk(static_cast<const uni::List<Item> &>(ol), want, "list of owned elements");
        for (int q : want) { REQUIRE(!reg.alive.count(q), "element " << q << " handed out owned still lives"); }
        if (ol.n) { // kept longer than the list walk
          auto keep = ol[ol.n - 1];
          REQUIRE(reg.alive.count(1000 + (int)ol.n - 1), "kept element");
        }
        REQUIRE(reg.alive.lower_bound(1000) == reg.alive.end(), "owned elements left");
      }
      }
      if (s.chance(1, 2) || k + 1 == nops) {
        walk(vl, vm, "list of values");
        walk(static_cast<const uni::List<Item> &>(vl), vm, "list of values by its interface");
        walk(pl, pm, "list of pointers");
        walk(static_cast<const uni::List<Item> &>(pl), pm, "list of pointers by its interface");
        walk(sl, shm, "list of shared pointers");
        bool thrown = false;
        size_t bad = vm.size() + s.upto(2);
        try { vl.At(bad); } catch (const std::out_of_range &) { thrown = true; }
        REQUIRE(thrown, "element " << bad << " of " << vm.size() << " does not throw");
        thrown = false;
        bad = pm.size() + s.upto(2);
        try { pl[bad]; } catch (const std::out_of_range &) { thrown = true; }
        REQUIRE(thrown, "element " << bad << " of " << pm.size() << " pointers does not throw");
        REQUIRE(reg.alive == live, "elements alive after walking:" << hist.str());
      }
      REQUIRE(reg.alive == live, "elements alive:" << hist.str());
    }
    uni::Element<const uni::List<Item>> lent(&vl, false);
    walk(*lent, vm, "lent list");
    lent.reset();
    REQUIRE_EQ(vl.storage.size(), vm.size(), "lent list after its handle");
    { // an owned list takes its elements along
      auto *p = new uni::PolyVectorList<Item, Item>();
      size_t n = s.upto(4);
      for (size_t i = 0; i < n; i++) p->storage.emplace_back(new ItemA(5000 + (int)i));
      uni::Element<const uni::List<Item>> own(p);
      uni::Element<const uni::List<Item>> other(std::move(own));
      REQUIRE_EQ(other->Size(), n, "owned list");
    }
    REQUIRE(reg.alive == live, "elements of owned list:" << hist.str());
    ValList val;
    size_t n = s.upto(6);
    for (size_t i = 0; i < n; i++) val.v.push_back((int)s.irange(-100, 100));
    size_t k = 0;
    for (int x : val) { REQUIRE(k < n && x == val.v[k] * 3, "value list element " << k); k++; }
    REQUIRE_EQ(k, n, "values visited");
    for (size_t i = 0; i < n; i++) REQUIRE_EQ(val[i], val.v[i] * 3, "value by index " << i);
    using Proxy = uni::VirtualIteratorProxy<uni::Vector<int>, &uni::Vector<int>::Size, const int, &uni::Vector<int>::At>;
    k = 0;
    for (int x : Proxy(&val)) { REQUIRE(k < n && x == val.v[k] * 3, "proxy element " << k); k++; }
    REQUIRE_EQ(k, n, "values visited by proxy");
    s.nontrivial(vm.size() + pm.size() > 1);
  }
  REQUIRE(reg.alive.empty(), "elements left after the lists");
  for (auto &d : reg.died) if (d.first < 1000) REQUIRE_EQ(d.second, 1, "element " << d.first << " destroyed");
  s.note([&](std::ostream &o) { o << hist.str(); });
}
