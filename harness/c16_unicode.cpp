// C16: conversions between UTF-8 and wider encodings against an encoder of its own.
#include "pbt.hpp"
#include "datas/tchar.hpp"
#include "datas/unicode.hpp"
#include <memory>
using pbt::Src;
typedef std::vector<uint32_t> Points;

static uint32_t point(Src &s, bool zero) {
  uint32_t c;
  switch (s.upto(9)) {
  case 0: case 1: c = 0x20 + s.upto(0x5e); break;
  case 2: c = s.upto(0x7f); break;
  case 3: c = 0x80 + s.upto(0x77f); break;
  case 4: c = 0x800 + s.upto(0xcfff); break;
  case 5: c = 0xe000 + s.upto(0x1fff); break;
  case 6: case 7: c = 0x10000 + s.upto(0xfffff); break;
  case 8: c = s.pick({0x7fu, 0x80u, 0x7ffu, 0x800u, 0xd7ffu, 0xe000u, 0xfeffu, 0xfffeu, 0xffffu, 0x10000u, 0x103ffu, 0x10400u, 0x10ffffu, 0xffffdu}); break;
  default: c = 0; break;
  }
  return c || zero ? c : 'a';
}
static Points points(Src &s, bool zero = true) {
  size_t n = s.chance(1, 50) ? s.upto(3000) : s.size(20);
  Points p;
  if (n > 300) { // a long text from few choices
    uint32_t a = point(s, zero), b = point(s, zero);
    for (size_t i = 0; i < n; i++) p.push_back(i % 7 ? a : b);
    return p;
  }
  for (size_t i = 0; i < n; i++) p.push_back(point(s, zero));
  return p;
}
static std::string enc8(const Points &p) {
  std::string r;
  for (uint32_t c : p) {
    if (c < 0x80) r += (char)c;
    else if (c < 0x800) r += (char)(0xc0 | c >> 6), r += (char)(0x80 | (c & 63));
    else if (c < 0x10000) r += (char)(0xe0 | c >> 12), r += (char)(0x80 | (c >> 6 & 63)), r += (char)(0x80 | (c & 63));
    else r += (char)(0xf0 | c >> 18), r += (char)(0x80 | (c >> 12 & 63)), r += (char)(0x80 | (c >> 6 & 63)), r += (char)(0x80 | (c & 63));
  }
  return r;
}
template <class C> static std::basic_string<C> encW(const Points &p) {
  std::basic_string<C> r;
  for (uint32_t c : p)
    if (sizeof(C) == 2 && c > 0xffff) r += (C)(0xd800 + ((c - 0x10000) >> 10)), r += (C)(0xdc00 + ((c - 0x10000) & 0x3ff));
    else r += (C)c;
  return r;
}
static std::string sh(const Points &p) {
  std::string r;
  char b[16];
  for (size_t i = 0; i < p.size() && i < 40; i++) snprintf(b, 16, "U+%04X ", p[i]), r += b;
  return r;
}
static std::string hex(const std::string &t) {
  std::string r;
  char b[8];
  for (size_t i = 0; i < t.size() && i < 60; i++) snprintf(b, 8, "%02x ", (unsigned char)t[i]), r += b;
  return r;
}
template <class C> static std::string hexW(const std::basic_string<C> &t) {
  std::string r;
  char b[16];
  for (size_t i = 0; i < t.size() && i < 40; i++) snprintf(b, 16, "%x ", (unsigned)t[i]), r += b;
  return r;
}
// zero-terminated, nothing behind it
template <class C> static std::unique_ptr<C[]> exact(const std::basic_string<C> &t) {
  std::unique_ptr<C[]> m(new C[t.size() + 1]);
  std::copy(t.begin(), t.end(), m.get());
  m[t.size()] = 0;
  return m;
}

template <class C> static size_t wide(Src &s) {
  bool asPtr = s.coin();
  Points p = points(s, !asPtr);
  auto w = encW<C>(p);
  std::string u = enc8(p), got = asPtr ? es::ToUTF8(exact(w).get()) : es::ToUTF8(w);
  REQUIRE(got == u, "to UTF-8 of " << sh(p) << "is " << hex(got) << "not " << hex(u));
  return p.size();
}
PBT_TEST(to_utf8, 60000, 3000000) {
  size_t n = 0;
  switch (s.upto(2)) {
  case 0: n = wide<char16_t>(s); break;
  case 1: n = wide<char32_t>(s); break;
  default: n = wide<wchar_t>(s); break;
  }
  s.nontrivial(n > 1);
}
PBT_TEST(round_trip, 60000, 3000000) {
  bool asPtr = s.coin();
  Points p = points(s, !asPtr);
  std::string u = enc8(p);
  auto want = encW<wchar_t>(p);
  bool beyond = false;
  for (uint32_t c : p) beyond |= c > 0xffff;
  if (beyond) s.label("beyond the basic plane");
  if (p.empty()) s.label("empty");
  std::wstring w = asPtr ? es::ToUTF1632(exact(u).get()) : es::ToUTF1632(u);
  REQUIRE(w == want, "wide form of " << sh(p) << "is " << hexW(w) << "not " << hexW(want));
  std::string b = asPtr ? es::ToUTF8(exact(w).get()) : es::ToUTF8(w);
  REQUIRE(b == u, "back to UTF-8 from " << sh(p) << "is " << hex(b) << "not " << hex(u));
  // the same through the string functions
  REQUIRE(std::to_wstring(u) == want && (!asPtr || std::to_wstring(u.c_str()) == want), "to_wstring");
  REQUIRE(std::to_string(w) == u && (!asPtr || std::to_string(w.c_str()) == u), "to_string");
  REQUIRE(std::to_wstring(w) == w && std::to_string(u) == u, "conversion to itself");
  if (asPtr) REQUIRE(std::to_wstring(w.c_str()) == w && std::to_string(u.c_str()) == u, "conversion to itself");
  REQUIRE(ToTSTRING(u) == u && ToTSTRING(w) == u, "to native string");
  s.nontrivial(p.size() > 1 && u.size() > p.size());
  s.note([&](std::ostream &o) { o << sh(p); });
}
// Text that is no UTF-8: reported, or the result is some text that converts
// back; valid parts before the damage never change the outcome of valid text.
PBT_TEST(damaged, 60000, 2000000) {
  std::string u = enc8(points(s, false));
  size_t n = 1 + s.upto(3);
  for (size_t i = 0; i < n; i++) {
    size_t at = u.empty() ? 0 : s.upto(u.size() - 1);
    switch (s.upto(4)) {
    case 0: if (!u.empty()) u[at] = (char)(0x80 + s.upto(0x7f)); break;
    case 1: u.insert(at, 1, (char)(0x80 + s.upto(0x7f))); break;
    case 2: if (!u.empty()) u.erase(at, 1); break;
    case 3: u.resize(at); break;
    default: u.insert(at, s.pick({"\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xe0\x80\x80", "\xff", "\xf0\x80\x80\x80", "\xed\xb0\x80"})); break;
    }
  }
  // is it valid? own decoder
  bool valid = true;
  Points p;
  for (size_t i = 0; i < u.size() && valid;) {
    unsigned char c = u[i];
    size_t l = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
    if (!l || i + l > u.size()) { valid = false; break; }
    uint32_t v = l == 1 ? c : c & (0xff >> (l + 1));
    for (size_t k = 1; k < l; k++) {
      unsigned char d = u[i + k];
      if ((d & 0xc0) != 0x80) valid = false;
      v = v << 6 | (d & 63);
    }
    if ((l == 3 && v < 0x800) || (l == 4 && (v < 0x10000 || v > 0x10ffff)) || (v >= 0xd800 && v < 0xe000)) valid = false;
    p.push_back(v);
    i += l;
  }
  s.label(valid ? "valid after all" : "invalid");
  std::wstring w;
  bool threw = false;
  try {
    w = s.coin() ? es::ToUTF1632(u) : es::ToUTF1632(exact(u).get());
  } catch (const std::range_error &) {
    threw = true;
  }
  if (valid) REQUIRE(!threw && w == encW<wchar_t>(p), "valid text " << hex(u) << " gives " << hexW(w));
  else if (!threw) REQUIRE(w.size() <= u.size(), "more characters than bytes of " << hex(u));
  s.nontrivial(!valid);
  s.note([&](std::ostream &o) { o << hex(u) << (threw ? "reported" : "converted"); });
}
// wide text that is no text: surrogates alone, values beyond the last character
template <class C> static void damagedWide(Src &s) {
  std::basic_string<C> w = encW<C>(points(s, false));
  size_t at = s.upto(w.size());
  w.insert(at, 1, (C)s.pick({0xd800u, 0xdbffu, 0xdc00u, 0xdfffu, 0x110000u, 0xffffffffu}));
  try {
    std::string u = s.coin() ? es::ToUTF8(w) : es::ToUTF8(exact(w).get());
    REQUIRE(u.size() <= w.size() * 6, "length of UTF-8");
  } catch (const std::range_error &) {
    s.label("reported");
  }
}
PBT_TEST(damaged_wide, 20000, 500000) {
  switch (s.upto(2)) {
  case 0: damagedWide<char16_t>(s); break;
  case 1: damagedWide<char32_t>(s); break;
  default: damagedWide<wchar_t>(s); break;
  }
  s.nontrivial(true);
}
PBT_TEST(help_switches, 5000, 50000) {
  static const char *const yes[] = {"-h", "-?", "/?", "--help"};
  std::string t = s.chance(1, 2) ? s.pick(yes) : enc8(points(s, false));
  if (s.chance(1, 4) && !t.empty()) t.pop_back();
  if (s.chance(1, 4)) t += s.pick({"h", "?", " ", "elp"});
  bool want = false;
  for (auto y : yes) want |= t == y;
  REQUIRE_EQ(IsHelp(t), want, "is a help switch: " << t);
  s.nontrivial(want || t.size() > 1);
}
