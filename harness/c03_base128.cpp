// C03: variable-length integers against an independent codec.
#include "pbt.hpp"
#include "datas/base_128.hpp"
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include <sstream>
using pbt::Src;
using std::string;

// ---- reference encodings ---------------------------------------------------
// unsigned: 7 bits per byte, top bit continues, ninth byte holds 8 bits
static string encU(uint64_t v) {
  string r;
  for (int i = 0; i < 8; i++) {
    if (v < 0x80) {
      r += (char)v;
      return r;
    }
    r += (char)(0x80 | (v & 0x7f));
    v >>= 7;
  }
  r += (char)v;
  return r;
}
// signed: magnitude (ones' complement for negatives) in 7 bit groups, the last
// of at most eight bytes keeps six bits and the sign in bit 6; what does not
// fit 55 bits is stored as the raw value in nine bytes
static string encS(int64_t v) {
  uint64_t m = v < 0 ? ~(uint64_t)v : (uint64_t)v;
  if (m >> 55 == 0) {
    string r;
    while (m > 0x3f) {
      r += (char)(0x80 | (m & 0x7f));
      m >>= 7;
    }
    r += (char)(m | (v < 0 ? 0x40 : 0));
    return r;
  }
  string r;
  uint64_t u = (uint64_t)v;
  for (int i = 0; i < 8; i++) {
    r += (char)(0x80 | (u & 0x7f));
    u >>= 7;
  }
  r += (char)u;
  return r;
}

static uint64_t genU(Src &s) {
  if (s.chance(1, 3)) { // around group boundaries
    unsigned k = (unsigned)s.range(1, 9) * 7 - (unsigned)s.upto(1);
    uint64_t b = k >= 64 ? 0 : 1ull << k;
    return b + s.upto(4) - 2;
  }
  return s.bits(64);
}
static int64_t genS(Src &s) {
  uint64_t v = genU(s);
  return (int64_t)(s.coin() ? ~v : v);
}

struct It {
  int kind; // 0 signed 1 unsigned 2 raw
  uint64_t v;
  string bytes;
};
static string describe(const std::vector<It> &its) {
  std::ostringstream o;
  for (auto &i : its)
    o << (i.kind == 0 ? "s" : i.kind == 1 ? "u" : "raw") << ":" << (i.kind == 0 ? std::to_string((int64_t)i.v) : std::to_string(i.v)) << "=" << pbt::hex(i.bytes.data(), i.bytes.size()) << " ";
  return o.str();
}

PBT_TEST(sequences, 60000, 1500000) {
  size_t n = s.range(1, 12);
  bool swap = s.chance(1, 3);
  std::vector<It> its;
  string all;
  for (size_t i = 0; i < n; i++) {
    It it;
    it.kind = (int)s.upto(2);
    if (it.kind == 0) {
      it.v = (uint64_t)genS(s);
      it.bytes = encS((int64_t)it.v);
    } else if (it.kind == 1) {
      it.v = genU(s);
      it.bytes = encU(it.v);
    } else {
      it.v = s.upto(255);
      it.bytes = string(1, (char)it.v);
    }
    all += it.bytes;
    its.push_back(it);
  }
  s.nontrivial(n >= 2 && all.size() > n);
  s.note([&](std::ostream &o) { o << describe(its); });
  std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
  size_t at = 0;
  {
    BinWritterRef w(ss);
    w.SwapEndian(swap);
    for (auto &it : its) {
      if (it.kind == 0)
        w.Write(bint128((int64_t)it.v));
      else if (it.kind == 1)
        w.Write(buint128(it.v));
      else
        w.Write<uint8>((uint8)it.v);
      at += it.bytes.size();
      REQUIRE(ss.str().size() <= at && w.Tell() == ss.str().size(), "size after writing");
      REQUIRE(ss.str().size() == at, "wrong length written for item " << &it - its.data() << " of " << describe(its) << ": " << pbt::hex(ss.str().data(), ss.str().size()));
    }
  }
  string got = ss.str();
  REQUIRE(got == all, "bytes written " << pbt::hex(got.data(), got.size()) << " for " << describe(its));
  BinReaderRef r(ss);
  r.SwapEndian(swap);
  at = 0;
  for (auto &it : its) {
    at += it.bytes.size();
    if (it.kind == 0) {
      bint128 v((int64_t)s.bits(64)); // previous content must not matter
      if (s.coin()) {
        r.Read(v);
        REQUIRE_EQ((int64_t)v, (int64_t)it.v, describe(its));
      } else {
        int64_t got2 = v.Read(r);
        REQUIRE_EQ(got2, (int64_t)it.v, describe(its));
        REQUIRE_EQ(v.value, (int64_t)it.v, describe(its));
      }
    } else if (it.kind == 1) {
      buint128 v(s.bits(64));
      if (s.coin()) {
        r.Read(v);
        REQUIRE_EQ((uint64_t)v, it.v, describe(its));
      } else {
        uint64_t got2 = v.Read(r);
        REQUIRE_EQ(got2, it.v, describe(its));
        REQUIRE_EQ(v.value, it.v, describe(its));
      }
    } else {
      uint8 b;
      r.Read(b);
      REQUIRE_EQ((uint64_t)b, it.v, "raw byte between");
    }
    REQUIRE_EQ((size_t)r.Tell(), at, "consumed, " << describe(its));
  }
}

PBT_TEST(single_values, 200000, 6000000) {
  // many values per case, one stream each, cheap checks of the length rule
  bool sg = s.coin();
  uint64_t v = sg ? (uint64_t)genS(s) : genU(s);
  string e = sg ? encS((int64_t)v) : encU(v);
  std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
  BinWritterRef w(ss);
  if (sg)
    w.Write(bint128((int64_t)v));
  else
    w.Write(buint128(v));
  string g = ss.str();
  s.nontrivial(g.size() > 1);
  s.label(("len" + std::to_string(g.size())).c_str());
  s.note([&](std::ostream &o) { o << (sg ? "signed " : "unsigned ") << (int64_t)v; });
  REQUIRE(g.size() <= 9, "encoding of " << v << " takes " << g.size() << " bytes");
  REQUIRE(g == e, (sg ? "signed " : "unsigned ") << (int64_t)v << " encoded as " << pbt::hex(g.data(), g.size()) << " expected " << pbt::hex(e.data(), e.size()));
  // foreign encoder
  std::stringstream s2(e + string(3, (char)0xff), std::ios::in | std::ios::binary);
  BinReaderRef r(s2);
  if (sg) {
    bint128 x;
    r.Read(x);
    REQUIRE_EQ((int64_t)x, (int64_t)v, "decoded");
  } else {
    buint128 x;
    r.Read(x);
    REQUIRE_EQ((uint64_t)x, v, "decoded");
  }
  REQUIRE_EQ((size_t)r.Tell(), e.size(), "consumed");
}

// other encoders may pad: groups of zero bits in front of the last byte
PBT_TEST(padded, 60000, 1500000) {
  bool sg = s.coin();
  uint64_t m = s.chance(1, 5) ? 0 : s.bits((unsigned)s.range(1, sg ? 55 : 56));
  bool neg = sg && s.coin();
  size_t groups = 1;
  while (groups < 8 && (m >> (7 * groups - sg))) groups++;
  size_t len = s.range(groups, 8);
  string e;
  for (size_t i = 0; i + 1 < len; i++) e += (char)(0x80 | (m >> 7 * i & 0x7f));
  e += (char)((m >> 7 * (len - 1) & (sg ? 0x3f : 0x7f)) | (neg ? 0x40 : 0));
  std::stringstream in(e + string(3, (char)s.pick({0, 255})), std::ios::in | std::ios::binary);
  BinReaderRef r(in);
  string what = pbt::hex(e.data(), e.size());
  if (sg) {
    bint128 x((int64_t)s.bits(64));
    r.Read(x);
    REQUIRE_EQ((int64_t)x, (int64_t)(neg ? ~m : m), what);
  } else {
    buint128 x(s.bits(64));
    r.Read(x);
    REQUIRE_EQ((uint64_t)x, m, what);
  }
  REQUIRE_EQ((size_t)r.Tell(), e.size(), "consumed of " << what);
  s.nontrivial(len > groups);
  s.note([&](std::ostream &o) { o << (sg ? "signed " : "unsigned ") << what; });
}

// all values of up to 15 bits and around every power of two, once per run
PBT_TEST(systematic, 800, 800) {
  uint64_t blk = s.upto(4095) * 8;
  s.nontrivial();
  auto one = [&](uint64_t v, bool sg) {
    std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
    BinWritterRef w(ss);
    if (sg)
      w.Write(bint128((int64_t)v));
    else
      w.Write(buint128(v));
    string e = sg ? encS((int64_t)v) : encU(v), g = ss.str();
    REQUIRE(g == e, (sg ? "signed " : "unsigned ") << (int64_t)v << " encoded as " << pbt::hex(g.data(), g.size()) << " expected " << pbt::hex(e.data(), e.size()));
    BinReaderRef r(ss);
    if (sg) {
      bint128 x;
      r.Read(x);
      REQUIRE_EQ((int64_t)x, (int64_t)v, "decoded");
    } else {
      buint128 x;
      r.Read(x);
      REQUIRE_EQ((uint64_t)x, v, "decoded");
    }
  };
  for (uint64_t i = 0; i < 8; i++) {
    one(blk + i, true);
    one(~(blk + i), true);
    one(blk + i, false);
  }
  unsigned b = (unsigned)(blk / 8 % 64);
  for (uint64_t d = 0; d < 5; d++) {
    uint64_t v = (1ull << b) + d - 2;
    one(v, true);
    one(~v, true);
    one(v, false);
  }
}
