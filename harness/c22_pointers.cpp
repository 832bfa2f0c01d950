// C22: relocatable pointers.
#include "pbt.hpp"
#include "datas/pointer.hpp"
#include <memory>
using pbt::Src;
namespace es { thread_local std::vector<void *> usedPts; }

struct Leaf { uint16_t id, other; };
struct Node;
struct Node {
  esPointerX64<Node> a;
  esPointerX86<Node> b, b2;
  esPointerX64<esPointerX86<Leaf>> pp;
  esPointerX86<esPointerX64<Leaf>> pq, pad;
  uint64_t id;
};
union Slot8 { esPointerX64<Leaf> l; uint64_t raw; };

enum Kind { A64, B86, PP64, PQ86, L64, L86, NKINDS };
struct Slot {
  Kind kind;
  size_t at;     // where in the block
  int64_t raw;   // as stored: relative to the root, 0 for null
  int64_t to;    // place in the block, -1 for null
  bool fixed = false;
  bool is64() const { return kind == A64 || kind == PP64 || kind == L64; }
  size_t size() const { return is64() ? 8 : 4; }
};
struct Block {
  std::unique_ptr<char[]> space;
  char *mem = nullptr;
  size_t size = 0;
  int64_t root = 0, root64 = 0; // of the narrow and of the wide pointers
  int64_t from(const Slot &s) const { return s.is64() ? root64 : root; }
  char *base(const Slot &s) const { return mem + from(s); }
  std::vector<char> image, now; // as loaded, as expected (slots aside)
  std::vector<Slot> slots;
};

template <class P> struct Ref {
  static P &at(Block &b, const Slot &s) { return *reinterpret_cast<P *>(b.mem + s.at); }
};
template <class F> static auto with(Block &b, const Slot &s, F f) {
  switch (s.kind) {
  case A64: return f(Ref<esPointerX64<Node>>::at(b, s));
  case B86: return f(Ref<esPointerX86<Node>>::at(b, s));
  case PP64: return f(Ref<esPointerX64<esPointerX86<Leaf>>>::at(b, s));
  case PQ86: return f(Ref<esPointerX86<esPointerX64<Leaf>>>::at(b, s));
  case L64: return f(Ref<esPointerX64<Leaf>>::at(b, s));
  default: return f(Ref<esPointerX86<Leaf>>::at(b, s));
  }
}
template <class P> static char *addr(P &p) { return (char *)static_cast<typename P::value_type *>(p); }
template <class P> static char *caddr(const P &p) { return (char *)static_cast<const typename P::value_type *>(p); }

static void build(Src &s, Block &b) {
  size_t nNodes = 1 + s.upto(4), nLeaf = 1 + s.upto(6), nPl = s.upto(4), nPs = s.upto(4);
  // layout: pieces in random order
  struct Piece { int kind; size_t n, at; };
  std::vector<Piece> ps;
  for (size_t i = 0; i < nNodes; i++) ps.push_back({0, 1, 0});
  ps.push_back({1, nLeaf, 0});
  if (nPl) ps.push_back({2, nPl, 0});   // array of 64-bit pointers to leaves
  if (nPs) ps.push_back({3, nPs, 0});   // array of 32-bit pointers to leaves
  for (size_t i = ps.size(); i > 1; i--) std::swap(ps[i - 1], ps[s.upto(i - 1)]);
  size_t at = 8 * s.upto(4);
  std::vector<size_t> nodes, leaves, pl, psv;
  for (auto &p : ps) {
    p.at = at;
    size_t each = p.kind == 0 ? sizeof(Node) : p.kind == 1 ? sizeof(Leaf) : p.kind == 2 ? 8 : 4;
    for (size_t i = 0; i < p.n; i++) (p.kind == 0 ? nodes : p.kind == 1 ? leaves : p.kind == 2 ? pl : psv).push_back(at + i * each);
    at += (p.n * each + 7) / 8 * 8 + 8 * s.upto(2);
  }
  b.size = at + 8;
  b.space.reset(new char[b.size + 64]);
  b.mem = (char *)(((uintptr_t)b.space.get() + 7) & ~(uintptr_t)7);
  switch (s.upto(4)) { // where addresses in the file count from
  case 0: b.root = (int64_t)s.upto(b.size); break;
  case 1: b.root = -(int64_t)s.upto(4096); break;
  case 2: b.root = -((int64_t)INT32_MAX - (int64_t)b.size - (int64_t)s.upto(4096)); s.label("far root"); break;
  default: b.root = 0;
  }
  b.root64 = s.chance(1, 6) ? -(int64_t)s.bits(34) : b.root;
  memset(b.mem, 0x5a, b.size);
  auto slot = [&](Kind k, size_t place, const std::vector<size_t> &targets) {
    Slot sl{k, place, 0, -1};
    if (!targets.empty() && !s.chance(1, 4)) {
      int64_t t = (int64_t)s.pick(targets);
      if (t != (int64_t)place && t != b.from(sl)) sl.to = t, sl.raw = t - b.from(sl); // own address and the root itself cannot be told
    }
    if (sl.is64()) { int64_t v = sl.raw; memcpy(b.mem + place, &v, 8); }
    else { int32_t v = (int32_t)sl.raw; memcpy(b.mem + place, &v, 4); }
    b.slots.push_back(sl);
  };
  for (size_t i = 0; i < nodes.size(); i++) {
    size_t n = nodes[i];
    slot(A64, n + 0, nodes), slot(B86, n + 8, nodes), slot(B86, n + 12, nodes);
    slot(PP64, n + 16, psv), slot(PQ86, n + 24, pl);
    uint64_t id = 0x1234567800 + i;
    memcpy(b.mem + n + 32, &id, 8);
  }
  for (size_t i = 0; i < leaves.size(); i++) { Leaf l{(uint16_t)(100 + i), (uint16_t)s.bits(16)}; memcpy(b.mem + leaves[i], &l, sizeof l); }
  for (size_t p : pl) slot(L64, p, leaves);
  for (size_t p : psv) slot(L86, p, leaves);
  b.image.assign(b.mem, b.mem + b.size);
  b.now = b.image;
}
static void checkAll(Block &b, const std::string &hist) {
  for (auto &sl : b.slots) {
    bool f = with(b, sl, [](auto &p) { const auto &c = p; return c.Fixed(); });
    REQUIRE_EQ(f, sl.fixed, "pointer at " << sl.at << " known as fixed up:" << hist);
    if (!sl.fixed) {
      REQUIRE(!memcmp(b.mem + sl.at, b.image.data() + sl.at, sl.size()), "pointer at " << sl.at << " changed without being fixed up:" << hist);
      if (!sl.raw) {
        REQUIRE(!with(b, sl, [](auto &p) { return addr(p); }), "null pointer at " << sl.at << " not fixed up is not null:" << hist);
      }
      continue;
    }
    char *want = sl.to < 0 ? nullptr : b.mem + sl.to;
    REQUIRE(with(b, sl, [](auto &p) { return addr(p); }) == want, "pointer of kind " << sl.kind << " at " << sl.at << " refers to " << (void *)with(b, sl, [](auto &p) { return addr(p); }) << ", not " << (void *)want << ":" << hist);
    REQUIRE(with(b, sl, [](auto &p) { return caddr(p); }) == want, "constant pointer of kind " << sl.kind << " at " << sl.at << ":" << hist);
    if (!want) continue;
    REQUIRE(with(b, sl, [](auto &p) { return (char *)&*p; }) == want, "* of pointer at " << sl.at << hist);
    REQUIRE(with(b, sl, [](auto &p) { return (char *)p.operator->(); }) == want, "-> of pointer at " << sl.at << hist);
    REQUIRE(with(b, sl, [](auto &p) { const auto &c = p; return (char *)&*c; }) == want, "* of constant pointer at " << sl.at << hist);
    REQUIRE(with(b, sl, [](auto &p) { const auto &c = p; return (char *)c.operator->(); }) == want, "-> of constant pointer at " << sl.at << hist);
  }
  // everything that is not a pointer is as loaded
  std::vector<char> mask(b.size, 0);
  for (auto &sl : b.slots) for (size_t i = 0; i < sl.size(); i++) mask[sl.at + i] = 1;
  for (size_t i = 0; i < b.size; i++) REQUIRE(mask[i] || b.mem[i] == b.image[i], "data at " << i << " changed:" << hist);
}

PBT_TEST(blocks, 24000, 2000000) {
  ClearESPointers();
  Block bl[2];
  size_t nb = 1 + s.upto(1);
  for (size_t i = 0; i < nb; i++) build(s, bl[i]);
  std::ostringstream hist;
  size_t fixes = 0, again = 0, nops = 1 + s.size(40);
  for (size_t k = 0; k < nops; k++) {
    Block &b = bl[s.upto(nb - 1)];
    Slot &sl = b.slots[s.upto(b.slots.size() - 1)];
    size_t which = (size_t)(&b - bl), idx = (size_t)(&sl - b.slots.data());
    int op = (int)s.upto(11);
    if (op <= 6) {
      bool noCheck = !sl.fixed && s.chance(1, 3);
      hist << " fix" << which << "." << idx << (noCheck ? "!" : "");
      bool was = sl.fixed;
      bool r = with(b, sl, [&](auto &p) { return noCheck ? p.Fixup(b.base(sl), true) : p.Fixup(b.base(sl)); });
      sl.fixed = true;
      REQUIRE_EQ(r, !was && sl.to >= 0, "result of the fix-up of pointer " << idx << ":" << hist.str());
      if (was) again++; else fixes++;
    } else if (op == 7) { // all of the block, as a loader does
      hist << " all" << which;
      std::vector<size_t> order(b.slots.size());
      for (size_t i = 0; i < order.size(); i++) order[i] = i;
      for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[s.upto(i - 1)]);
      for (size_t i : order) {
        Slot &q = b.slots[i];
        bool r = with(b, q, [&](auto &p) { return p.Fixup(b.base(q)); });
        REQUIRE_EQ(r, !q.fixed && q.to >= 0, "result of the fix-up of pointer " << i << ":" << hist.str());
        if (q.fixed) again++; else fixes++;
        q.fixed = true;
      }
    } else if (op == 8 && s.chance(1, 3)) { // loaded again at the same place
      hist << " reload";
      ClearESPointers();
      for (size_t i = 0; i < nb; i++) {
        memcpy(bl[i].mem, bl[i].image.data(), bl[i].size);
        for (auto &q : bl[i].slots) {
          q.fixed = false;
          q.to = q.raw ? q.raw + bl[i].from(q) : -1;
        }
      }
    } else if (op == 9 && sl.fixed) { // directed elsewhere
      int64_t to = -1;
      for (auto &o : b.slots) if (o.kind == sl.kind && o.to >= 0 && o.to != (int64_t)sl.at && s.coin()) { to = o.to; break; }
      hist << " set" << which << "." << idx << (to < 0 ? " null" : "");
      with(b, sl, [&](auto &p) {
        using V = typename std::remove_reference<decltype(p)>::type::value_type;
        auto &r = (p = to < 0 ? nullptr : reinterpret_cast<V *>(b.mem + to));
        REQUIRE(&r == &p, "assignment returns something else");
        return 0;
      });
      sl.to = to;
    } else if (op == 10) { // through pointers to the leaves
      hist << " walk" << which;
      for (auto &n : b.slots) {
        if ((n.kind != PP64 && n.kind != PQ86) || !n.fixed || n.to < 0) continue;
        // the pointers reached lie in an array
        Kind want = n.kind == PP64 ? L86 : L64;
        size_t pos = 0;
        for (auto &q : b.slots) {
          if (q.kind != want || (int64_t)q.at < n.to) continue;
          pos = (q.at - (size_t)n.to) / q.size();
          bool was = q.fixed;
          bool r = n.kind == PP64 ? Ref<esPointerX64<esPointerX86<Leaf>>>::at(b, n)[(int)pos].Fixup(b.base(q))
                                  : Ref<esPointerX86<esPointerX64<Leaf>>>::at(b, n)[(int)pos].Fixup(b.base(q));
          REQUIRE_EQ(r, !was && q.to >= 0, "fix-up of a pointer reached by a pointer:" << hist.str());
          q.fixed = true;
          if (was) again++; else fixes++;
          if (q.to < 0) continue;
          Leaf l;
          memcpy(&l, b.image.data() + q.to, sizeof l);
          uint16_t id = n.kind == PP64 ? Ref<esPointerX64<esPointerX86<Leaf>>>::at(b, n)[(int)pos]->id
                                       : Ref<esPointerX86<esPointerX64<Leaf>>>::at(b, n)[(int)pos]->id;
          REQUIRE_EQ(id, l.id, "leaf reached by two pointers:" << hist.str());
        }
      }
    }
    for (size_t i = 0; i < nb; i++) checkAll(bl[i], hist.str());
  }
  if (again) s.label("fixed up again");
  if (nb > 1) s.label("two blocks");
  s.nontrivial(fixes > 1 && again > 0);
  s.note([&](std::ostream &o) { for (size_t i = 0; i < nb; i++) o << bl[i].slots.size() << " pointers in " << bl[i].size << " bytes, root " << bl[i].root << "; "; o << hist.str(); });
  ClearESPointers();
}
