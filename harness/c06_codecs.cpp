// C06: format codecs against generic bit extraction.
#include "pbt.hpp"
#include "uni/format.hpp"
#include <cmath>
#include <stdexcept>
using namespace uni;
using pbt::Src;
using std::string;

struct Layout {
  DataType t;
  const char *name;
  std::vector<unsigned> bits;
};
static const std::vector<Layout> LAYOUTS = {
    {DataType::R32G32B32A32, "R32G32B32A32", {32, 32, 32, 32}},
    {DataType::R32G32B32, "R32G32B32", {32, 32, 32}},
    {DataType::R16G16B16A16, "R16G16B16A16", {16, 16, 16, 16}},
    {DataType::R32G32, "R32G32", {32, 32}},
    {DataType::R16G16B16, "R16G16B16", {16, 16, 16}},
    {DataType::R32, "R32", {32}},
    {DataType::R16G16, "R16G16", {16, 16}},
    {DataType::R10G10B10A2, "R10G10B10A2", {10, 10, 10, 2}},
    {DataType::R11G11B10, "R11G11B10", {11, 11, 10}},
    {DataType::R8G8B8A8, "R8G8B8A8", {8, 8, 8, 8}},
    {DataType::R24G8, "R24G8", {24, 8}},
    {DataType::R8G8B8, "R8G8B8", {8, 8, 8}},
    {DataType::R8G8, "R8G8", {8, 8}},
    {DataType::R16, "R16", {16}},
    {DataType::R5G6B5, "R5G6B5", {5, 6, 5}},
    {DataType::R5G5B5A1, "R5G5B5A1", {5, 5, 5, 1}},
    {DataType::R8, "R8", {8}},
};
static const char *FN[] = {"INVALID", "INT", "UINT", "NORM", "UNORM", "FLOAT", "UFLOAT"};
static bool supported(FormatType f, const Layout &l) {
  switch (f) {
  case FormatType::INT:
  case FormatType::UINT:
  case FormatType::NORM:
  case FormatType::UNORM: return true;
  case FormatType::FLOAT:
    return l.t == DataType::R32G32B32A32 || l.t == DataType::R32G32B32 || l.t == DataType::R32G32 || l.t == DataType::R32 ||
           l.t == DataType::R16G16B16A16 || l.t == DataType::R16G16B16 || l.t == DataType::R16G16 || l.t == DataType::R16 || l.t == DataType::R11G11B10;
  case FormatType::UFLOAT: return l.t == DataType::R11G11B10;
  default: return false;
  }
}
static bool isInt(FormatType f) { return f == FormatType::INT || f == FormatType::UINT; }
static size_t bytesOf(const Layout &l) {
  unsigned n = 0;
  for (auto b : l.bits) n += b;
  return n / 8;
}
static uint64_t bitsAt(const string &e, unsigned pos, unsigned n) {
  uint64_t r = 0;
  for (unsigned i = 0; i < n; i++)
    r |= (uint64_t)((unsigned char)e[(pos + i) / 8] >> ((pos + i) % 8) & 1) << i;
  return r;
}
static int64_t sext(uint64_t v, unsigned n) { return (int64_t)(v << (64 - n)) >> (64 - n); }
static double smallFloat(uint64_t v, unsigned M, unsigned E, bool S, bool &nan) {
  uint64_t m = v & ((1u << M) - 1), e = (v >> M) & ((1u << E) - 1);
  int bias = (1 << (E - 1)) - 1;
  nan = e == (1u << E) - 1 && m;
  double r = e == (1u << E) - 1 ? INFINITY : !e ? std::ldexp((double)m, 1 - bias - (int)M) : std::ldexp((double)(m | 1u << M), (int)e - bias - (int)M);
  return S && (v >> (M + E) & 1) ? -r : r;
}
static double single(uint64_t v, bool &nan) {
  float f;
  uint32_t u = (uint32_t)v;
  memcpy(&f, &u, 4);
  nan = std::isnan(f);
  return f;
}

static void checkComp(FormatType f, const Layout &l, const string &e, unsigned comp, uint32_t gotRaw, const char *how) {
  auto where = [&] { return string(how) + " " + FN[(int)f] + " " + l.name + " element " + pbt::hex(e.data(), e.size()) + " component " + std::to_string(comp); };
  float got;
  memcpy(&got, &gotRaw, 4);
  if (comp >= l.bits.size()) {
    REQUIRE(isInt(f) ? gotRaw == 0 : got == 0.f, where() << " is missing in the layout, got " << (isInt(f) ? (double)(int32_t)gotRaw : got));
    return;
  }
  unsigned pos = 0, n = l.bits[comp];
  for (unsigned i = 0; i < comp; i++) pos += l.bits[i];
  uint64_t v = bitsAt(e, pos, n);
  unsigned widest = 0;
  for (auto b : l.bits) widest = std::max(widest, b);
  bool mixed = (l.t == DataType::R11G11B10 || l.t == DataType::R5G6B5) && n < widest;
  double exp = 0, exp2 = 0;
  bool nan = false;
  switch (f) {
  case FormatType::UINT: REQUIRE_EQ(gotRaw, (uint32_t)v, where()); return;
  case FormatType::INT: REQUIRE_EQ((int64_t)(int32_t)gotRaw, sext(v, n), where()); return;
  case FormatType::UNORM: {
    if (n == 32) v >>= 1, n = 31; // single precision cannot tell
    double mx = (double)((1ull << n) - 1);
    exp = exp2 = v / mx;
    if (mixed) { // carried at the widest component's width
      double a = 2. * v / ((1ull << widest) - 1), b = (2. * v + 1) / ((1ull << widest) - 1);
      exp = std::min(exp, a), exp2 = std::max(exp2, b);
    }
    break;
  }
  case FormatType::NORM: {
    int64_t sv = sext(v, n);
    if (n == 1) { exp = exp2 = (double)sv; break; }
    double mx = (double)((1ull << (n - 1)) - 1);
    exp = exp2 = sv / mx;
    if (mixed) {
      double m2 = (double)((1ull << (widest - 1)) - 1);
      double a = 2. * sv / m2, b = (2. * sv + 1) / m2;
      exp = std::min(exp, std::min(a, b)), exp2 = std::max(exp2, std::max(a, b));
    }
    break;
  }
  default: {
    if (n == 32) exp = exp2 = single(v, nan);
    else if (n == 16) exp = exp2 = smallFloat(v, 10, 5, true, nan);
    else {
      unsigned M = n - 5 - (f == FormatType::FLOAT);
      bool S = f == FormatType::FLOAT;
      exp = smallFloat(v, M, 5, S, nan);
      if (mixed) {
        if (nan || std::isinf(exp)) {
          REQUIRE(std::isnan(got) || (std::isinf(got) && !nan), where() << " expected not finite, got " << pbt::show(got));
          return;
        }
        bool n2;
        exp2 = smallFloat((v & ((1u << (M + 5)) - 1)) + 1, M, 5, false, n2);
        bool neg = S && v >> (M + 5);
        double mag = std::fabs(got), lo = std::fabs(exp);
        REQUIRE((bool)std::signbit(got) == neg, where() << " sign, got " << got);
        REQUIRE(mag >= lo && mag < exp2, where() << " got " << pbt::show(got) << " expected in [" << lo << "," << exp2 << ")");
        return;
      }
      exp2 = exp;
    }
    if (nan) { REQUIRE(std::isnan(got), where() << " expected NaN, got " << pbt::show(got)); return; }
    REQUIRE((double)got == exp && std::signbit(got) == std::signbit(exp), where() << " got " << pbt::show(got) << " expected " << exp);
    return;
  }
  }
  double tol = 6e-7 * std::max(std::fabs(exp), std::fabs(exp2));
  REQUIRE(got >= exp - tol && got <= exp2 + tol, where() << " got " << pbt::show(got) << " expected " << exp << (mixed ? " to " + pbt::show(exp2) : string()));
}

// memory that ends (and starts) at an unmapped page
static char *fenced(size_t n) {
  static const size_t CAP = 1 << 20;
  static char *base = [] {
    char *p = (char *)mmap(nullptr, CAP + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + 4096, CAP, PROT_READ | PROT_WRITE);
    return p;
  }();
  if (n > CAP) abort();
  return base + 4096 + CAP - n;
}

static string genElem(Src &s, const Layout &l, FormatType f) {
  size_t n = bytesOf(l);
  string e(n, '\0');
  unsigned pos = 0;
  for (auto b : l.bits) {
    uint64_t v = s.bits(b);
    if (!isInt(f) && b == 32 && s.coin()) { // floats of ordinary size
      float x = (float)s.irange(-100000, 100000) / 64;
      uint32_t u;
      memcpy(&u, &x, 4);
      v = u;
    }
    for (unsigned i = 0; i < b; i++)
      if (v >> i & 1) e[(pos + i) / 8] = (char)(e[(pos + i) / 8] | 1 << ((pos + i) % 8));
    pos += b;
  }
  return e;
}
static FormatType genType(Src &s, const Layout &l) {
  std::vector<FormatType> c;
  for (int i = 1; i <= 6; i++)
    if (supported((FormatType)i, l)) c.push_back((FormatType)i);
  return s.pick(c);
}
static FormatCodec &codec(FormatType f, const Layout &l) {
  try {
    return FormatCodec::Get({f, l.t});
  } catch (const std::exception &e) {
    pbt::fail(string("no codec for ") + FN[(int)f] + " " + l.name + ": " + e.what());
  }
}

PBT_TEST(single_element, 600000, 15000000) {
  const Layout &l = LAYOUTS[s.upto(LAYOUTS.size() - 1)];
  FormatType f = genType(s, l);
  string e = genElem(s, l, f);
  FormatCodec &c = codec(f, l);
  char *in = fenced(e.size());
  memcpy(in, e.data(), e.size());
  uint32_t o[4];
  if (isInt(f)) {
    IVector4A16 v;
    v = IVector4A16(0x5a5a5a5a);
    c.GetValue(v, in);
    memcpy(o, &v, 16);
  } else {
    Vector4A16 v(77.f);
    c.GetValue(v, in);
    memcpy(o, &v, 16);
  }
  bool nz = false;
  for (auto ch : e) nz |= ch != 0;
  s.nontrivial(nz);
  s.label(FN[(int)f]);
  s.note([&](std::ostream &os) { os << FN[(int)f] << " " << l.name << " " << pbt::hex(e.data(), e.size()); });
  for (unsigned i = 0; i < 4; i++) checkComp(f, l, e, i, o[i], "GetValue");
}

template <class V> static void doSample(Src &s, FormatCodec &c, FormatType f, const Layout &l, const std::vector<string> &el, size_t stride, const char *in) {
  V out;
  size_t n = el.size();
  bool useSize = s.coin() || !n;
  out.resize(useSize ? n : s.size(20));
  size_t want = n;
  if (!stride && s.coin()) c.Sample(out, in, useSize ? 0 : n);
  else c.Sample(out, in, useSize ? 0 : n, stride);
  REQUIRE_EQ(out.size(), want, "number of results, " << FN[(int)f] << " " << l.name);
  for (size_t i = 0; i < n; i++) {
    uint32_t o[4];
    memcpy(o, &out[i], 16);
    typename V::value_type one;
    fenced(0);
    string e = el[i];
    char tmp[16];
    memcpy(tmp, e.data(), e.size());
    c.GetValue(one, tmp);
    REQUIRE(!memcmp(&one, o, 16), "element " << i << " of " << n << " (stride " << stride << ") sampled differs from decoding it alone: " << FN[(int)f] << " " << l.name << " " << pbt::hex(e.data(), e.size()));
    for (unsigned k = 0; k < 4; k++) checkComp(f, l, e, k, o[k], "Sample");
  }
}

PBT_TEST(sampling, 200000, 5000000) {
  const Layout &l = LAYOUTS[s.upto(LAYOUTS.size() - 1)];
  FormatType f = genType(s, l);
  FormatCodec &c = codec(f, l);
  size_t sz = bytesOf(l), n = s.size(24);
  bool far = s.chance(1, 24);
  if (far && s.coin()) n = s.range(100, 600); // many elements
  bool huge = !far && s.chance(1, 400); // elements further apart than two bytes count
  if (huge) n = s.range(1, 3);
  size_t stride = far ? s.pick<size_t>({64, 127, 128, 129, 200, 255, 256, 257, 512, 768, 1000, 1024, 1536}) : huge ? s.range(65530, 70000) : s.coin() ? 0 : sz + s.upto(20);
  size_t step = stride ? stride : sz;
  std::vector<string> el;
  size_t total = n ? (n - 1) * step + sz : 0;
  string mem = s.coin() ? string(total, '\xff') : s.bulk(total);
  for (size_t i = 0; i < n; i++) {
    el.push_back(genElem(s, l, f));
    memcpy(&mem[i * step], el.back().data(), sz);
  }
  char *in = fenced(total);
  memcpy(in, mem.data(), total);
  s.nontrivial(n >= 2);
  s.label("gap", n >= 2 && step > sz);
  s.note([&](std::ostream &os) { os << FN[(int)f] << " " << l.name << " n=" << n << " stride=" << stride; });
  if (isInt(f)) doSample<FormatCodec::ivec>(s, c, f, l, el, stride, in);
  else doSample<FormatCodec::fvec>(s, c, f, l, el, stride, in);
  REQUIRE(!memcmp(in, mem.data(), total), "sampling changed its input");
}

// more elements than two bytes count
template <class V> static void manySamples(Src &s, FormatCodec &c, FormatType f, const Layout &l, size_t n, size_t stride, const string &mem) {
  size_t sz = bytesOf(l), step = stride ? stride : sz;
  V out;
  bool useSize = s.coin();
  out.resize(useSize ? n : s.pick<size_t>({0, 1, 300, n - 1, n, n + 5}));
  c.Sample(out, mem.data(), useSize ? 0 : n, stride);
  REQUIRE_EQ(out.size(), n, "number of results, " << FN[(int)f] << " " << l.name);
  for (size_t i = 0; i < n; i += i + 300 < n ? 1 + s.upto(600) : 1) {
    typename V::value_type one;
    char tmp[16];
    memcpy(tmp, &mem[i * step], sz);
    c.GetValue(one, tmp);
    REQUIRE(!memcmp(&one, &out[i], 16), "element " << i << " of " << n << " (stride " << stride << ") sampled differs from decoding it alone: " << FN[(int)f] << " " << l.name);
  }
}
PBT_TEST(many_elements, 600, 12000) {
  const Layout &l = LAYOUTS[s.upto(LAYOUTS.size() - 1)];
  FormatType f = genType(s, l);
  size_t sz = bytesOf(l), n = s.coin() ? s.range(65530, 65545) : s.chance(1, 3) ? s.range(131000, 132000) : s.range(600, 70000), stride = s.coin() ? 0 : sz + s.upto(9);
  string some;
  for (int i = 0; i < 61; i++) some += genElem(s, l, f);
  string mem(n * (stride ? stride : sz), '\0');
  for (size_t i = 0; i < mem.size(); i++) mem[i] = some[(i + i / 4099) % some.size()];
  s.nontrivial(n > 65535);
  s.note([&](std::ostream &os) { os << FN[(int)f] << " " << l.name << " n=" << n << " stride=" << stride; });
  FormatCodec &c = codec(f, l);
  if (isInt(f)) manySamples<FormatCodec::ivec>(s, c, f, l, n, stride, mem);
  else manySamples<FormatCodec::fvec>(s, c, f, l, n, stride, mem);
}

PBT_TEST(misuse, 60000, 600000) {
  const Layout &l = LAYOUTS[s.upto(LAYOUTS.size() - 1)];
  size_t sz = bytesOf(l);
  s.nontrivial();
  if (s.chance(1, 3)) { // unlisted combinations
    FormatType f = (FormatType)s.upto(6);
    bool custom = s.chance(1, 4);
    if (!custom && supported(f, l)) { codec(f, l); return; }
    bool err = false;
    try {
      FormatCodec::Get({f, custom ? DataType::CUSTOM : l.t});
    } catch (const std::exception &) {
      err = true;
    }
    REQUIRE(err, "unlisted combination " << FN[(int)f] << " " << (custom ? "CUSTOM" : l.name) << " gave a codec");
    return;
  }
  FormatType f = genType(s, l);
  FormatCodec &c = codec(f, l);
  string data = s.bulk(16 * 8);
  bool wrongKind = s.coin();
  bool wantInt = isInt(f) != wrongKind;
  size_t n = s.upto(4), pre = s.upto(3); // no count: as many as the destination holds
  size_t stride = wrongKind ? (s.coin() ? 0 : sz) : s.range(0, sz - 1);
  if (!wrongKind && !stride) return; // zero means the element size
  bool one = wrongKind && s.coin();
  bool err = false;
  std::vector<uint32_t> before, after;
  auto go = [&](auto vec) {
    vec.resize(pre);
    if (pre) memset((void *)vec.data(), 0x37, pre * 16);
    auto copy = vec;
    typename decltype(vec)::value_type v;
    memset((void *)&v, 0x41, sizeof v);
    auto v0 = v;
    try {
      if (one) c.GetValue(v, data.data());
      else c.Sample(vec, data.data(), n, stride);
    } catch (const std::runtime_error &) {
      err = true;
    }
    REQUIRE(err, (wrongKind ? "wrong kind of value accepted: " : "short stride accepted: ") << FN[(int)f] << " " << l.name << " stride " << stride << " count " << n);
    REQUIRE(!memcmp((void *)&v, (void *)&v0, 16), "value returned with an error");
    if (wrongKind) REQUIRE(vec.size() == copy.size() && (!pre || !memcmp((void *)vec.data(), (void *)copy.data(), pre * 16)), "data returned with an error");
  };
  if (wantInt) go(FormatCodec::ivec{});
  else go(FormatCodec::fvec{});
}

// every pattern of the one and two byte layouts
PBT_TEST(small_layouts_exhaustive, 8000, 40000) {
  std::vector<const Layout *> c;
  for (auto &l : LAYOUTS) if (bytesOf(l) <= 2) c.push_back(&l);
  const Layout &l = *s.pick(c);
  FormatType f = genType(s, l);
  FormatCodec &cd = codec(f, l);
  uint32_t blk = (uint32_t)s.upto(bytesOf(l) == 1 ? 3 : 1023) * 64;
  s.nontrivial();
  for (uint32_t i = 0; i < 64; i++) {
    uint16_t v = (uint16_t)(blk + i);
    string e((char *)&v, bytesOf(l));
    uint32_t o[4];
    if (isInt(f)) { IVector4A16 r; cd.GetValue(r, e.data()); memcpy(o, &r, 16); }
    else { Vector4A16 r; cd.GetValue(r, e.data()); memcpy(o, &r, 16); }
    for (unsigned k = 0; k < 4; k++) checkComp(f, l, e, k, o[k], "GetValue");
  }
}
