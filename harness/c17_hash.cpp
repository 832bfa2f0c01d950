// C17: Jenkins hashes against straightforward implementations of the published functions.
#include "pbt.hpp"
#include "datas/jenkinshash.hpp"
#include "datas/jenkinshash3.hpp"
#include <memory>
#include <set>
using pbt::Src;

// Bob Jenkins, one at a time
static uint32_t joaat(const std::string &t) {
  uint32_t h = 0;
  for (unsigned char c : t) h += c, h += h << 10, h ^= h >> 6;
  h += h << 3, h ^= h >> 11, h += h << 15;
  return h;
}
// the same with bits above the 32nd kept within each step (default of the library)
static uint32_t joaat64(const std::string &t) {
  unsigned __int128 h = 0;
  const unsigned __int128 m64 = ~0ull;
  for (unsigned char c : t) {
    h = (h + c) & m64;
    h = (h * 1025) & m64;
    h = h ^ (h / 64);
    h = h & 0xffffffffu;
  }
  h = (h * 9) & m64, h = h ^ (h / 2048), h = (h * 32769) & m64;
  return (uint32_t)h;
}
// Bob Jenkins, lookup3 hashword() over the bytes padded with zeros to whole words
static uint32_t hashword(const std::vector<uint32_t> &key, uint32_t seed) {
  auto rot = [](uint32_t x, int k) { return (x << k) | (x >> (32 - k)); };
  uint32_t a, b, c;
  size_t length = key.size(), i = 0;
  a = b = c = 0xdeadbeef + ((uint32_t)length << 2) + seed;
  while (length > 3) {
    a += key[i], b += key[i + 1], c += key[i + 2];
    a -= c, a ^= rot(c, 4), c += b;
    b -= a, b ^= rot(a, 6), a += c;
    c -= b, c ^= rot(b, 8), b += a;
    a -= c, a ^= rot(c, 16), c += b;
    b -= a, b ^= rot(a, 19), a += c;
    c -= b, c ^= rot(b, 4), b += a;
    length -= 3, i += 3;
  }
  switch (length) {
  case 3: c += key[i + 2]; // fall through
  case 2: b += key[i + 1]; // fall through
  case 1:
    a += key[i];
    c ^= b, c -= rot(b, 14);
    a ^= c, a -= rot(c, 11);
    b ^= a, b -= rot(a, 25);
    c ^= b, c -= rot(b, 16);
    a ^= c, a -= rot(c, 4);
    b ^= a, b -= rot(a, 14);
    c ^= b, c -= rot(b, 24);
  }
  return c;
}
static uint32_t lookup3(const std::string &t, uint32_t seed = 0) {
  std::vector<uint32_t> w((t.size() + 3) / 4);
  for (size_t i = 0; i < t.size(); i++) w[i / 4] |= (uint32_t)(unsigned char)t[i] << (i % 4 * 8);
  return hashword(w, seed);
}
static std::string bytes(Src &s) {
  size_t n = s.chance(1, 3) ? s.pick({0, 1, 3, 4, 8, 11, 12, 13, 23, 24, 25, 35, 36, 37, 48, 60, 96}) : s.chance(1, 40) ? s.upto(5000) : s.size(40);
  std::string r;
  if (n > 200) { auto b = s.bulk(n); return std::string(b.begin(), b.end()); }
  size_t kind = s.upto(2);
  for (size_t i = 0; i < n; i++) r += kind == 0 ? (char)('a' + s.upto(25)) : kind == 1 ? (char)s.upto(255) : (char)s.pick({0, 0x80, 0xff, 0x7f, 1});
  return r;
}
static std::string hex(const std::string &t) {
  std::string r;
  char b[8];
  for (size_t i = 0; i < t.size() && i < 60; i++) snprintf(b, 8, "%02x", (unsigned char)t[i]), r += b;
  return r + "(" + std::to_string(t.size()) + ")";
}
PBT_TEST(reference, 200000, 8000000) {
  std::string t = bytes(s);
  uint32_t seed = s.coin() ? 0 : (uint32_t)s.bits(32);
  // stored somewhere else, with other bytes around or nothing at all
  size_t pre = s.upto(5), post = s.coin() ? 0 : s.upto(5);
  std::unique_ptr<char[]> mem(new char[pre + t.size() + post]);
  for (size_t i = 0; i < pre; i++) mem[i] = (char)s.upto(255);
  std::copy(t.begin(), t.end(), mem.get() + pre);
  for (size_t i = 0; i < post; i++) mem[pre + t.size() + i] = (char)s.upto(255);
  es::string_view v(mem.get() + pre, t.size());
  REQUIRE_EQ(JenkinsHash3_(v, seed), lookup3(t, seed), "lookup3 of " << hex(t) << " seed " << seed);
  REQUIRE_EQ(JenkinsHash3_(v), lookup3(t), "lookup3 of " << hex(t));
  REQUIRE_EQ((uint32)JenHash3(v), lookup3(t), "lookup3 class of " << hex(t));
  REQUIRE_EQ(JenkinsHash_<uint32>(v), joaat(t), "one at a time of " << hex(t));
  REQUIRE_EQ(JenkinsHash_<uint64>(v), joaat64(t), "wide one at a time of " << hex(t));
  REQUIRE_EQ(JenkinsHash_(v), joaat64(t), "one at a time of " << hex(t));
  REQUIRE_EQ(JenHash(v).raw(), joaat64(t), "class of " << hex(t));
  REQUIRE_EQ(JenHashCannon(v).raw(), joaat(t), "canonical class of " << hex(t));
  s.nontrivial(t.size() > 1);
  s.note([&](std::ostream &o) { o << hex(t) << " seed " << seed; });
}
// strings as long as whole files, where counts of words and bytes get large
PBT_TEST(long_strings, 60, 2000) {
  size_t n = s.pick({65535, 65536, 65537, 262140, 262143, 262144, 262145, 262156, 524288, 1 << 20}) + s.upto(13);
  auto unit = s.bulk(997);
  std::string t;
  t.reserve(n);
  while (t.size() < n) t.append(unit.begin(), unit.begin() + std::min(unit.size(), n - t.size()));
  uint32_t seed = s.coin() ? 0 : (uint32_t)s.bits(32);
  es::string_view v(t);
  REQUIRE_EQ(JenkinsHash3_(v, seed), lookup3(t, seed), "lookup3 of " << n << " bytes");
  REQUIRE_EQ(JenkinsHash_<uint32>(v), joaat(t), "one at a time of " << n << " bytes");
  REQUIRE_EQ(JenkinsHash_(v), joaat64(t), "wide one at a time of " << n << " bytes");
  s.nontrivial();
}
PBT_TEST(comparisons, 40000, 600000) {
  auto val = [&](uint32_t o) { return s.chance(1, 3) ? o : s.coin() ? (uint32_t)s.bits(32) : (uint32_t)s.pick({0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu}); };
  uint32_t a = val(1), b = val(a);
  JenHash x(a), y(b), z(x), d;
  REQUIRE(d.raw() == 0 && z.raw() == a, "construction");
  REQUIRE_EQ(x == y, a == b, a << " " << b);
  REQUIRE_EQ(x != y, a != b, a << " " << b);
  REQUIRE_EQ(x == b, a == b, a << " " << b);
  REQUIRE_EQ(x != b, a != b, a << " " << b);
  REQUIRE_EQ(a == y, a == b, a << " " << b);
  REQUIRE_EQ(a != y, a != b, a << " " << b);
  // an ordering in one direction or the other, the same for both operators
  REQUIRE_EQ((x < y) + (y < x), a != b ? 1 : 0, "less: " << a << " " << b);
  REQUIRE_EQ(x < y, y > x, "less and greater: " << a << " " << b);
  JenHash w(val(b));
  if (x < y && y < w) REQUIRE(x < w, "transitive");
  z = y;
  REQUIRE(z.raw() == b, "assignment");
  JenHash3 j(a), k;
  k = j;
  REQUIRE_EQ((uint32)k, a, "value of class");
  s.nontrivial(a != b);
}
// hashes of literals computed by the compiler
struct Lit { const char *data; size_t size; uint32_t h, hc, h3, h3s; };
// constant initialised where the library allows it
#define L(x) {x, sizeof(x) - 1, JenHash(x).raw(), JenHashCannon(x).raw(), (uint32)JenHash3(x), JenkinsHash3_({x, sizeof(x) - 1}, 0x12345678u + (uint32)sizeof(x))},
static const Lit lits[] = {
  L("") L("a") L("ab") L("abc") L("abcd") L("abcde") L("abcdef") L("abcdefg") L("abcdefgh") L("abcdefghi") L("abcdefghij")
  L("abcdefghijk") L("abcdefghijkl") L("abcdefghijklm") L("abcdefghijklmn") L("abcdefghijklmno") L("abcdefghijklmnop")
  L("abcdefghijklmnopqrstuvw") L("abcdefghijklmnopqrstuvwx") L("abcdefghijklmnopqrstuvwxy") L("abcdefghijklmnopqrstuvwxyz0123456789")
  L("abcdefghijklmnopqrstuvwxyz01234567890") L("The quick brown fox jumps over the lazy dog, and then once more")
  L("\x80") L("\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff") L("\xc5\xbdlu\xc5\xa5ou\xc4\x8dk\xc3\xbd") L("with\0zero") L("\0") L("\0\0\0\0")
  L("\x7f\x80\x81\xfe\xff\x01\x02\x03") L("className") L("data0") L("A0") L("reflectorMember_with_a_long_name_of_48_characters_")
};
PBT_TEST(literals, 400, 4000) {
  const Lit &l = lits[s.upto(sizeof(lits) / sizeof(lits[0]) - 1)];
  std::string t(l.data, l.size);
  volatile size_t n = l.size;
  es::string_view v(t.data(), n);
  REQUIRE_EQ(l.h, joaat64(t), "compiled " << hex(t));
  REQUIRE_EQ(l.hc, joaat(t), "compiled canonical " << hex(t));
  REQUIRE_EQ(l.h3, lookup3(t), "compiled lookup3 " << hex(t));
  REQUIRE_EQ(l.h3s, lookup3(t, 0x12345678u + (uint32_t)l.size + 1), "compiled lookup3 with seed " << hex(t));
  REQUIRE(JenHash(v).raw() == l.h && JenHashCannon(v).raw() == l.hc && JenHash3(v) == l.h3, "run time " << hex(t));
  s.nontrivial(t.size() > 1);
}
// equal hashes for equal names, and (nearly) none for others
PBT_TEST(single_change, 60000, 2000000) {
  std::string t = bytes(s);
  if (t.empty()) t = "x";
  std::string u = t;
  size_t at = s.upto(u.size() - 1);
  u[at] ^= (char)(1 << s.upto(7));
  es::string_view a(t), b(u);
  // one changed bit always changes a hash of these kinds when it is in the last byte;
  // elsewhere compare with the reference relation
  REQUIRE_EQ(JenkinsHash3_(a) == JenkinsHash3_(b), lookup3(t) == lookup3(u), "lookup3 of " << hex(t) << " and " << hex(u));
  REQUIRE_EQ(JenHash(a) == JenHash(b), joaat64(t) == joaat64(u), "one at a time");
  s.nontrivial(t.size() > 1);
}
