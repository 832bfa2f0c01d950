// C24: Blowfish and XOR encoders.
#include "pbt.hpp"
#include "datas/encrypt/blowfish2.h"
#include "datas/encrypt/xorenc.hpp"
#include <csetjmp>
#include <csignal>
#include <memory>
#include <sys/mman.h>
using pbt::Src;

// ---------------------------------------------------------------- the published cipher, its tables taken from pi
struct Pi { // fraction bits of pi, big fixed point, most significant word first, word 0 is the integer part
  enum { W = 18 + 1024, N = W + 4 };
  uint32_t v[N] = {};
  static bool divs(uint32_t *a, uint32_t d) {
    uint64_t r = 0;
    bool any = false;
    for (int i = 0; i < N; i++) { r = r << 32 | a[i]; a[i] = (uint32_t)(r / d); r %= d; any |= a[i] != 0; }
    return any;
  }
  static void add(uint32_t *a, const uint32_t *b, bool neg) {
    int64_t c = 0;
    for (int i = N - 1; i >= 0; i--) { c += (int64_t)a[i] + (neg ? -(int64_t)b[i] : (int64_t)b[i]); a[i] = (uint32_t)c; c >>= 32; }
  }
  void arctan(uint32_t mul, uint32_t x, bool neg) { // adds mul*arctan(1/x)
    uint32_t t[N] = {}, u[N];
    t[0] = mul;
    divs(t, x);
    for (uint32_t k = 1;; k += 2) {
      memcpy(u, t, sizeof u);
      divs(u, k);
      add(v, u, neg != ((k & 2) != 0));
      if (!divs(t, x * x)) break;
    }
  }
  Pi() { arctan(16, 5, false), arctan(4, 239, true); }
};
struct Published {
  uint32_t P[18], S[4][256];
  uint32_t F(uint32_t x) const { return ((S[0][x >> 24] + S[1][x >> 16 & 255]) ^ S[2][x >> 8 & 255]) + S[3][x & 255]; }
  void enc(uint32_t &l, uint32_t &r) const {
    for (int i = 0; i < 16; i++) { l ^= P[i]; r ^= F(l); std::swap(l, r); }
    std::swap(l, r);
    r ^= P[16], l ^= P[17];
  }
  void dec(uint32_t &l, uint32_t &r) const {
    for (int i = 17; i > 1; i--) { l ^= P[i]; r ^= F(l); std::swap(l, r); }
    std::swap(l, r);
    r ^= P[1], l ^= P[0];
  }
  explicit Published(const std::string &key) {
    static const Pi pi;
    for (int i = 0; i < 18; i++) P[i] = pi.v[1 + i];
    for (int i = 0; i < 1024; i++) S[i / 256][i % 256] = pi.v[19 + i];
    size_t k = 0;
    for (auto &p : P) { uint32_t w = 0; for (int i = 0; i < 4; i++) w = w << 8 | (uint8_t)key[k++ % key.size()]; p ^= w; }
    uint32_t l = 0, r = 0;
    for (int i = 0; i < 18; i += 2) enc(l, r), P[i] = l, P[i + 1] = r;
    for (int i = 0; i < 1024; i += 2) enc(l, r), S[i / 256][i % 256] = l, S[(i + 1) / 256][(i + 1) % 256] = r;
  }
  uint64_t enc(uint64_t b) const { uint32_t l = (uint32_t)b, r = (uint32_t)(b >> 32); enc(l, r); return l | (uint64_t)r << 32; }
};
static uint64_t ld(const char *p) { uint64_t v; memcpy(&v, p, 8); return v; }
static void st(char *p, uint64_t v) { memcpy(p, &v, 8); }
static std::string expected(const Published &c, int mode, uint64_t iv, std::string b) {
  for (size_t i = 0; i + 8 <= b.size(); i += 8) {
    uint64_t p = ld(&b[i]), o;
    switch (mode) {
    case 0: o = c.enc(p); break;
    case 1: o = c.enc(p ^ iv), iv = o; break;
    case 2: o = c.enc(p ^ iv), iv = p ^ o; break;
    case 3: o = p ^ c.enc(iv), iv = o; break;
    default: iv = c.enc(iv), o = p ^ iv;
    }
    st(&b[i], o);
  }
  return b;
}
struct SelfTest {
  SelfTest() { // published vectors
    Published a(std::string(8, '\0')), b("abcdefghijklmnopqrstuvwxyz");
    uint32_t l = 0, r = 0;
    a.enc(l, r);
    if (l != 0x4EF99745 || r != 0x6198DD78) abort();
    l = 0x424C4F57, r = 0x46495348;
    b.enc(l, r);
    if (l != 0x324ED0FE || r != 0xF413A203) abort();
    Published f(std::string(8, '\xff'));
    l = r = ~0u;
    f.enc(l, r);
    if (l != 0x51866FD5 || r != 0xB85ECB8A) abort();
  }
} selfTest;

static std::string key(Src &s, size_t max) {
  size_t n = 1 + s.upto(max - 1);
  if (s.chance(1, 4)) n = s.pick({1, 3, 4, 5, 8, 16, 55, 56});
  if (s.coin()) return s.bulk(n);
  std::string k;
  for (size_t i = 0; i < n; i++) k += (char)(s.chance(1, 4) ? 0x80 + s.upto(127) : ' ' + s.upto(94));
  return k;
}
static const char *const names[] = {"ECB", "CBC", "PCBC", "CFB", "OFB"};
static void code(const BlowfishEncoder &e, int mode, bool enc, char *b, size_t n, bool direct) {
  if (!direct) { if (enc) e.Encode(b, n); else e.Decode(b, n); return; }
  switch (mode) {
  case 0: enc ? e.EncodeECB(b, n) : e.DecodeECB(b, n); break;
  case 1: enc ? e.EncodeCBC(b, n) : e.DecodeCBC(b, n); break;
  case 2: enc ? e.EncodePCBC(b, n) : e.DecodePCBC(b, n); break;
  case 3: enc ? e.EncodeCFB(b, n) : e.DecodeCFB(b, n); break;
  default: enc ? e.EncodeOFB(b, n) : e.DecodeOFB(b, n);
  }
}
// a buffer between guards, at any alignment
struct Guarded {
  std::vector<char> mem;
  size_t at, n;
  std::string before;
  Guarded(Src &s, const std::string &d) : at(8 + s.upto(7)), n(d.size()) {
    before = s.bulk(at + n + 16);
    before.replace(at, n, d);
    mem.assign(before.begin(), before.end());
  }
  char *p() { return mem.data() + at; }
  std::string now() const { return std::string(mem.data() + at, n); }
  void guards(const std::string &what) const {
    for (size_t i = 0; i < mem.size(); i++)
      if (i < at || i >= at + n) REQUIRE(mem[i] == before[i], what << " touches byte " << (ptrdiff_t)i - (ptrdiff_t)at << " of a buffer of " << n);
  }
};

static void setKey(BlowfishEncoder &e, const std::string &k);
static void setKey(BlowfishEncoder2 &e, const std::string &k);
template <class E, bool published> static void history(Src &s) {
  // only the first 72 bytes of longer keys matter
  std::string k = key(s, s.chance(9, 10) ? 56 : s.coin() ? 72 : 600);
  int mode = (int)s.upto(4);
  std::unique_ptr<E> e(new E());
  bool modeFirst = s.coin();
  if (modeFirst) e->Mode((enum BlowfishEncoder::Mode)mode);
  if (s.chance(1, 4)) { std::string k0 = key(s, 56); setKey(*e, k0); } // had another key
  setKey(*e, k);
  if (!modeFirst) e->Mode((enum BlowfishEncoder::Mode)mode);
  uint64_t iv = s.bits(64);
  if (modeFirst && s.chance(1, 4)) iv = e->Vector();
  else e->Vector(iv);
  std::unique_ptr<E> other(s.chance(1, 3) ? new E(*e) : nullptr); // a copy decodes
  std::unique_ptr<Published> ref;
  if (published) ref.reset(new Published(k));
  size_t nops = 1 + s.size(5), blocks = 0;
  bool on = false;
  for (size_t q = 0; q < nops; q++) {
    size_t n = s.size(200);
    if (s.chance(1, 3)) n = 8 * s.size(20);
    if (s.chance(1, 60)) n = s.upto(s.chance(1, 40) ? 140000 : 6000);
    if (s.chance(1, 24)) n = ((size_t)1 << s.range(4, s.chance(1, 20) ? 17 : 12)) + (s.coin() ? 0 : s.upto(9)) - s.upto(1);
    std::string data = n > 4000 || s.coin() ? s.bulk(n) : std::string(n, (char)s.bits(8));
    blocks += n / 8;
    REQUIRE_EQ(e->Valid(), on, "encoder is valid");
    if (s.chance(1, 6)) { // only a mark for users
      on = s.coin();
      if (on && s.coin()) e->Enable();
      else e->Enable(on);
    }
    if (s.chance(1, 4)) { // modes can be changed back and forth
      mode = (int)s.upto(4);
      e->Mode((enum BlowfishEncoder::Mode)mode);
      if (other) other->Mode((enum BlowfishEncoder::Mode)mode);
    }
    if (s.chance(1, 4)) { iv = s.bits(64); e->Vector(iv); if (other) other->Vector(iv); }
    auto what = [&] { std::ostringstream o; o << names[mode] << " of " << n << " bytes, key of " << k.size() << ", operation " << q; return o.str(); };
    Guarded g(s, data);
    code(*e, mode, true, g.p(), n, s.coin());
    g.guards(what() + " encoding");
    std::string cipher = g.now();
    if (ref) REQUIRE(cipher == expected(*ref, mode, iv, data), what() << " differs from the published cipher, key " << pbt::show(k));
    if (n % 8) REQUIRE(cipher.substr(n / 8 * 8) == data.substr(n / 8 * 8), what() << " changes the odd end");
    if (n >= 16 && mode != 0) REQUIRE(cipher != data, what() << " leaves the data plain");
    if (s.chance(1, 3)) { // again, with something else between
      Guarded j(s, s.bulk(s.upto(40)));
      code(*e, mode, s.coin(), j.p(), j.n, s.coin());
      Guarded h(s, data);
      code(*e, mode, true, h.p(), n, s.coin());
      REQUIRE(h.now() == cipher, what() << " depends on what was encoded before");
    }
    code(other ? *other : *e, mode, false, g.p(), n, s.coin());
    g.guards(what() + " decoding");
    REQUIRE(g.now() == data, what() << " decoded is not what was encoded");
    REQUIRE_EQ(e->Vector(), iv, "initial vector after coding");
  }
  s.label(names[mode]);
  s.nontrivial(blocks > 1);
  s.note([&](std::ostream &o) { o << names[mode] << ", key of " << k.size() << ", " << nops << " buffers, " << blocks << " blocks"; });
}
static void setKey(BlowfishEncoder &e, const std::string &k) { static_cast<IEncryptor &>(e).SetKey({k.data(), k.size()}); }
static void setKey(BlowfishEncoder2 &e, const std::string &k) { e.SetKey(k.data(), (int)k.size()); }
PBT_TEST(blowfish, 12000, 300000) { history<BlowfishEncoder, true>(s); }
PBT_TEST(blowfish2, 4000, 100000) { history<BlowfishEncoder2, false>(s); }

PBT_TEST(xor_encoder, 24000, 600000) {
  std::string k = key(s, s.chance(1, 8) ? 1000 : 80), k2 = key(s, 20);
  std::unique_ptr<IEncryptor> e(new XOREncoder());
  e->SetKey({k2.data(), k2.size()});
  e->SetKey({k.data(), k.size()});
  size_t n = s.chance(1, 40) ? s.upto(s.chance(1, 20) ? 140000 : 5000) : s.size(300);
  std::string data = s.bulk(n);
  for (int q = 0; q < 2; q++) {
    Guarded g(s, data);
    bool enc = s.coin();
    if (enc) e->Encode(g.p(), n); else e->Decode(g.p(), n);
    g.guards("XOR");
    std::string out = g.now();
    for (size_t i = 0; i < n; i++) REQUIRE_EQ((uint8_t)out[i], (uint8_t)(data[i] ^ k[i % k.size()]), "byte " << i << " of " << n << ", key of " << k.size());
    if (enc) e->Decode(g.p(), n); else e->Encode(g.p(), n);
    g.guards("XOR back");
    REQUIRE(g.now() == data, "XOR twice over " << n << " bytes, key of " << k.size());
  }
  s.nontrivial(n > k.size() && k.size() > 1);
}

// buffers larger than any machine has: only the first pages exist, so coding them has to stop at the page behind
static sigjmp_buf faulted;
static char *faultAt;
static void onFault(int, siginfo_t *i, void *) { faultAt = (char *)i->si_addr; siglongjmp(faulted, 1); }
PBT_TEST(large_buffers, 400, 8000) {
  const size_t page = 4096, room = (size_t)1 << 36;
  static char *const mem = [&] {
    void *m = mmap(nullptr, room, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED || mprotect(m, page, PROT_READ | PROT_WRITE)) return (char *)nullptr;
    return (char *)m;
  }();
  if (!mem) return;
  const size_t at = s.upto(2000), have = page - at;
  size_t size = ((size_t)1 << s.range(14, 35)) + s.upto(1) * s.upto(100);
  if (s.coin()) size += (size_t)1 << s.range(14, 34);
  size = std::min(size, room - at);
  bool x = s.chance(1, 4), enc = s.coin(), direct = s.coin();
  int mode = (int)s.upto(4);
  std::string k = key(s, 56);
  std::unique_ptr<BlowfishEncoder> e(new BlowfishEncoder());
  XOREncoder xe;
  setKey(*e, k), xe.SetKey({k.data(), k.size()});
  e->Mode((enum BlowfishEncoder::Mode)mode);
  e->Vector(s.bits(64));
  for (size_t i = 0; i < page; i += 8) st(mem + i, i * 0x9e3779b97f4a7c15ull);
  struct sigaction now = {}, old[2];
  now.sa_sigaction = onFault, now.sa_flags = SA_SIGINFO | SA_NODEFER;
  faultAt = nullptr;
  sigaction(SIGSEGV, &now, &old[0]), sigaction(SIGBUS, &now, &old[1]);
  if (!sigsetjmp(faulted, 1)) {
    if (x) { if (enc) xe.Encode(mem + at, size); else xe.Decode(mem + at, size); }
    else code(*e, mode, enc, mem + at, size, direct);
  }
  sigaction(SIGSEGV, &old[0], nullptr), sigaction(SIGBUS, &old[1], nullptr);
  const char *what = x ? "XOR" : names[mode];
  REQUIRE(faultAt, what << (enc ? " encoding" : " decoding") << " of a buffer of " << size << " bytes ended before its end");
  REQUIRE(faultAt >= mem + at + have && faultAt < mem + at + size, what << " of a buffer of " << size << " bytes touches byte " << (faultAt - mem - at));
  for (size_t i = 0; i < at; i++) { uint64_t v = i / 8 * 8 * 0x9e3779b97f4a7c15ull; char b[8]; st(b, v); REQUIRE(mem[i] == b[i % 8], what << " of a buffer of " << size << " bytes touches a byte in front of it"); }
  s.label("more than 16 GB", size > (size_t)1 << 34);
  s.nontrivial(size > 0xffffffffu);
  s.note([&](std::ostream &o) { o << what << " of " << size << " bytes"; });
}
