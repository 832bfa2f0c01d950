// C04: bit fields and flags against plain arithmetic on a member list.
#include "pbt.hpp"
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include "datas/flags.hpp"
#include "gen_layouts.hpp"
#include <sstream>
using pbt::Src;
using std::string;

struct Ops {
  unsigned width;
  std::vector<std::function<void(void *, uint64_t)>> set;
  std::vector<std::function<uint64_t(const void *)>> get;
  std::function<void(void *, bool)> swap;
  std::function<void(void *, bool)> swapFn;
  std::function<string(const void *)> write;
  std::function<size_t(void *, const string &)> read;
};
template <class L> struct Add {
  Ops &o;
  template <class M> void op() {
    o.set.push_back([](void *p, uint64_t v) { static_cast<L *>(p)->template Set<M>((typename L::value_type)v); });
    o.get.push_back([](const void *p) { return (uint64_t) static_cast<const L *>(p)->template Get<M>(); });
  }
};
template <class L> Ops make() {
  Ops o;
  o.width = sizeof(L) * 8;
  members((L *)nullptr, Add<L>{o});
  o.swap = [](void *p, bool out) { static_cast<L *>(p)->SwapEndian(out); };
  o.swapFn = [](void *p, bool out) { FByteswapper(*static_cast<L *>(p), out); };
  o.write = [](const void *p) {
    std::stringstream ss(std::ios::out | std::ios::binary);
    BinWritterRef w(ss);
    w.SwapEndian(true);
    w.Write(*static_cast<const L *>(p));
    return ss.str();
  };
  o.read = [](void *p, const string &b) {
    std::stringstream ss(b, std::ios::in | std::ios::binary);
    BinReaderRef r(ss);
    r.SwapEndian(true);
    r.Read(*static_cast<L *>(p));
    return (size_t)r.Tell();
  };
  return o;
}
static const std::vector<Ops> &all() {
#define X(i) make<L##i>(),
  static const std::vector<Ops> v = {ALL_LAYOUTS(X)};
  return v;
}
static uint64_t maskOf(unsigned n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }

PBT_TEST(bitfield_history, 120000, 3000000) {
  size_t li = s.upto(NUM_LAYOUTS - 1);
  const Ops &o = all()[li];
  auto &sz = LAYOUT_SIZES[li];
  std::vector<unsigned> pos(sz.size());
  for (size_t i = 1; i < sz.size(); i++)
    pos[i] = pos[i - 1] + sz[i - 1];
  uint64_t model = s.bits(o.width);
  struct { unsigned char pre[8]; alignas(8) unsigned char v[8]; unsigned char post[8]; } st;
  memset(&st, 0xa7, sizeof st);
  memcpy(st.v, &model, o.width / 8);
  size_t n = s.range(1, 20), sets = 0;
  std::ostringstream hist;
  hist << "layout " << li << " width " << o.width << " start " << model;
  auto raw = [&] {
    uint64_t r = 0;
    asm volatile("" ::: "memory");
    memcpy(&r, st.v, o.width / 8);
    return r;
  };
  auto checkAll = [&] {
    for (size_t m = 0; m < sz.size(); m++)
      REQUIRE_EQ(o.get[m](st.v), (model >> pos[m]) & maskOf(sz[m]), "member " << m << " after " << hist.str());
  };
  unsigned claimed = pos.back() + sz.back();
  for (size_t i = 0; i < n; i++) {
    switch (s.upto(4)) {
    case 0:
    case 1:
    case 2: {
      size_t m = s.upto(sz.size() - 1);
      uint64_t v = s.coin() ? s.bits(sz[m]) : s.bits(o.width);
      hist << "; set " << m << "=" << v;
      o.set[m](st.v, v);
      uint64_t mk = maskOf(sz[m]) << pos[m];
      model = (model & ~mk) | ((v << pos[m]) & mk);
      sets++;
      break;
    }
    case 3: { // through foreign order and back, by call or by stream
      bool viaStream = s.coin() && o.width > 8; // streams never convert one-byte items
      hist << "; foreign" << (viaStream ? " stream" : "");
      uint64_t foreign = 0;
      for (size_t m = 0; m < sz.size(); m++)
        foreign |= ((model >> pos[m]) & maskOf(sz[m])) << (o.width - pos[m] - sz[m]);
      string fb;
      for (unsigned b = o.width; b; b -= 8)
        fb += (char)(foreign >> (b - 8));
      string got;
      if (viaStream) {
        uint64_t before = raw();
        got = o.write(st.v);
        REQUIRE_EQ(raw(), before, "object changed by writing it, " << hist.str());
      } else {
        (s.coin() ? o.swap : o.swapFn)(st.v, true);
        asm volatile("" ::: "memory");
        got.assign((char *)st.v, o.width / 8);
      }
      REQUIRE(got == fb, "foreign form " << pbt::hex(got.data(), got.size()) << " expected " << pbt::hex(fb.data(), fb.size()) << " " << hist.str());
      if (viaStream)
        REQUIRE_EQ(o.read(st.v, fb), fb.size(), "read size");
      else
        (s.coin() ? o.swap : o.swapFn)(st.v, false);
      checkAll();
      // unclaimed bits are not carried by the foreign form
      model = (model & maskOf(claimed)) | (raw() & ~maskOf(claimed));
      break;
    }
    default:
      checkAll();
      break;
    }
    REQUIRE_EQ(raw(), model & maskOf(o.width), "word after " << hist.str());
  }
  checkAll();
  for (auto c : st.pre) REQUIRE(c == 0xa7, "byte before changed");
  for (auto c : st.post) REQUIRE(c == 0xa7, "byte behind changed");
  s.nontrivial(sets >= 2);
  s.label(("width" + std::to_string(o.width)).c_str());
  s.note([&](std::ostream &os) { os << hist.str(); });
}

PBT_TEST(masks, 20000, 300000) {
  unsigned w = (unsigned)s.pick({8, 16, 32, 64});
  size_t size = s.range(1, w), p = s.upto(w - size);
  uint64_t m = maskOf(size) << p, mm = maskOf(size) << (w - p - size);
  BitMember b{p, size};
  uint64_t g = 0, gm = 0;
  switch (w) {
  case 8: g = b.GetMask<uint8>(), gm = b.GetMirrorMask<uint8>(); break;
  case 16: g = b.GetMask<uint16>(), gm = b.GetMirrorMask<uint16>(); break;
  case 32: g = b.GetMask<uint32>(), gm = b.GetMirrorMask<uint32>(); break;
  default: g = b.GetMask<uint64>(), gm = b.GetMirrorMask<uint64>(); break;
  }
  s.nontrivial(size > 1);
  REQUIRE_EQ(g, m, "mask of " << size << " bits at " << p << " in " << w);
  REQUIRE_EQ(gm, mm, "mirror mask of " << size << " bits at " << p << " in " << w);
}

// ---- flags -----------------------------------------------------------------
enum class F8 : uint8 { z };
enum class F16 : uint16 { z };
enum class F32 : uint32 { z };
enum class F64 : uint64 { z };
enum class FI32 : int32 { z };
enum FOld { FO };

template <class E, class S> void flagsHistory(Src &s, const char *name) {
  typedef es::Flags<E, S> F;
  const unsigned w = sizeof(S) * 8;
  auto bit = [&] { return (unsigned)(s.coin() ? s.upto(w - 1) : s.chance(1, 2) ? w - 1 - s.upto(1) : s.upto(3)); };
  std::ostringstream hist;
  hist << name;
  uint64_t model = 0;
  unsigned a = bit(), b = bit(), c = bit(), d = bit();
  auto e = [](unsigned i) { return static_cast<E>(i); };
  auto make = [&]() -> F {
    switch (s.upto(5)) {
    case 5: {
      unsigned m[5];
      for (auto &x : m) x = bit(), model |= 1ull << x;
      model |= 1ull << a | 1ull << b | 1ull << c | 1ull << d;
      return F(e(a), e(m[0]), e(b), e(m[1]), e(c), e(m[2]), e(d), e(m[3]), e(m[4]));
    }
    case 0: return F();
    case 1: model = 1ull << a; return F(e(a));
    case 2: model = 1ull << a | 1ull << b; return F(e(a), e(b));
    case 3: model = 1ull << a | 1ull << b | 1ull << c; return F(e(a), e(b), e(c));
    default: model = 1ull << a | 1ull << b | 1ull << c | 1ull << d; return F(e(a), e(b), e(c), e(d));
    }
  };
  F f = make();
  hist << " start " << model;
  size_t n = s.range(1, 16), muts = 0;
  for (size_t i = 0; i < n; i++) {
    unsigned k = bit();
    uint64_t m = 1ull << k;
    switch (s.upto(6)) {
    case 0: f += e(k); model |= m; muts++; hist << "; +" << k; break;
    case 1: f -= e(k); model &= ~m; muts++; hist << "; -" << k; break;
    case 2: { bool v = s.coin(); f.Set(e(k), v); model = v ? model | m : model & ~m; muts++; hist << "; set" << k << "=" << v; break; }
    case 3: { uint64_t v = s.bits(w); f = (S)v; model = v; hist << "; =" << v; break; }
    case 4: {
      const F cf = f;
      const F more(cf, e(k), e(a));
      REQUIRE_EQ((uint64_t)(S)more, model | m | 1ull << a, "copy with added flags, " << hist.str());
      const F one(cf, e(k)), three(cf, e(a), e(b), e(k)), five(cf, e(d), e(k), e(c), e(b), e(a));
      REQUIRE_EQ((uint64_t)(S)one, model | m, "copy with an added flag, " << hist.str());
      REQUIRE_EQ((uint64_t)(S)three, model | m | 1ull << a | 1ull << b, "copy with three added flags, " << hist.str());
      REQUIRE_EQ((uint64_t)(S)five, model | m | 1ull << a | 1ull << b | 1ull << c | 1ull << d, "copy with five added flags, " << hist.str());
      break;
    }
    case 5: {
      f += e(k); f -= e(k); model &= ~m; muts++; hist << "; +-" << k;
      break;
    }
    default: {
      uint64_t other = s.coin() ? model : s.coin() ? model ^ m : s.bits(w);
      F g;
      g = (S)other;
      REQUIRE_EQ(f == g, model == other, "equality with " << other << ", " << hist.str());
      REQUIRE_EQ(f != g, model != other, "inequality with " << other << ", " << hist.str());
    }
    }
    REQUIRE_EQ((uint64_t)(S)f, model, "raw value after " << hist.str());
    unsigned q = bit();
    for (unsigned x : {k, q}) {
      bool in = model >> x & 1;
      REQUIRE_EQ(f[e(x)], in, "flag " << x << " " << hist.str());
      REQUIRE_EQ(f == e(x), in, "flag " << x << " " << hist.str());
      REQUIRE_EQ(f != e(x), !in, "flag " << x << " " << hist.str());
    }
  }
  for (unsigned x = 0; x < w; x++)
    REQUIRE_EQ(f[e(x)], (bool)(model >> x & 1), "flag " << x << " " << hist.str());
  s.nontrivial(muts >= 2);
  s.note([&](std::ostream &os) { os << hist.str(); });
}

PBT_TEST(flags_history, 120000, 3000000) {
  switch (s.upto(8)) {
  case 0: return flagsHistory<F8, uint8>(s, "8");
  case 1: return flagsHistory<F16, uint16>(s, "16");
  case 2: return flagsHistory<F32, uint32>(s, "32");
  case 3: return flagsHistory<F64, uint64>(s, "64");
  case 4: return flagsHistory<FI32, uint32>(s, "i32");
  case 5: return flagsHistory<F8, uint64>(s, "8 in 64");
  case 6: return flagsHistory<F32, uint8>(s, "32 in 8");
  case 7: return flagsHistory<FOld, uint32>(s, "plain");
  default: return flagsHistory<F8, uint16>(s, "8 in 16");
  }
}
