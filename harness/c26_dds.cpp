// C26: DDS headers. The tables below follow the DXGI and DDS documentation.
#include "pbt.hpp"
#include "formats/DDS.hpp"
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#include <sstream>
using pbt::Src;

enum Kind { LINEAR, BLOCK, PAIRS, PLANAR };
struct Ref { unsigned id; Kind kind; unsigned bits; }; // bits per pixel; pairs: bits of two pixels
static std::vector<Ref> makeTable() {
  std::vector<Ref> t;
  auto run = [&](unsigned a, unsigned b, Kind k, unsigned bits) { for (unsigned i = a; i <= b; i++) t.push_back({i, k, bits}); };
  run(1, 4, LINEAR, 128), run(5, 8, LINEAR, 96), run(9, 22, LINEAR, 64), run(23, 47, LINEAR, 32), run(48, 59, LINEAR, 16);
  run(60, 65, LINEAR, 8), run(66, 66, LINEAR, 1), run(67, 67, LINEAR, 32), run(68, 69, PAIRS, 32);
  run(70, 72, BLOCK, 4), run(73, 78, BLOCK, 8), run(79, 81, BLOCK, 4), run(82, 84, BLOCK, 8);
  run(85, 86, LINEAR, 16), run(87, 93, LINEAR, 32), run(94, 99, BLOCK, 8);
  run(100, 101, LINEAR, 32), run(102, 102, LINEAR, 64), run(103, 103, PLANAR, 12), run(104, 105, PLANAR, 24), run(106, 106, PLANAR, 12);
  run(107, 107, PAIRS, 32), run(108, 109, PAIRS, 64), run(110, 110, PLANAR, 12), run(111, 113, LINEAR, 8), run(114, 115, LINEAR, 16);
  run(130, 131, PLANAR, 16), run(132, 132, PLANAR, 24);
  return t;
}
static const std::vector<Ref> table = makeTable();

struct Leg { unsigned cc; Kind kind; unsigned bits; unsigned dxgi; };
static constexpr unsigned CC(const char (&s)[5]) { return (uint8_t)s[0] | (uint8_t)s[1] << 8 | (uint8_t)s[2] << 16 | (unsigned)(uint8_t)s[3] << 24; }
static const std::vector<Leg> fourccs{
    {36, LINEAR, 64, 11}, {110, LINEAR, 64, 13}, {111, LINEAR, 16, 54}, {112, LINEAR, 32, 34}, {113, LINEAR, 64, 10}, {114, LINEAR, 32, 41}, {115, LINEAR, 64, 16}, {116, LINEAR, 128, 2},
    {CC("DXT1"), BLOCK, 4, 71}, {CC("DXT2"), BLOCK, 8, 74}, {CC("DXT3"), BLOCK, 8, 74}, {CC("DXT4"), BLOCK, 8, 77}, {CC("DXT5"), BLOCK, 8, 77},
    {CC("BC4U"), BLOCK, 4, 80}, {CC("ATI1"), BLOCK, 4, 80}, {CC("BC4S"), BLOCK, 4, 81}, {CC("BC5U"), BLOCK, 8, 83}, {CC("ATI2"), BLOCK, 8, 83}, {CC("BC5S"), BLOCK, 8, 84},
    {CC("RGBG"), PAIRS, 32, 68}, {CC("GRGB"), PAIRS, 32, 69}, {CC("YUY2"), PAIRS, 32, 107}, {CC("UYVY"), PAIRS, 32, 0}};
struct Mask { unsigned flags, bits, r, g, b, a, dxgi; };
static const std::vector<Mask> masks{
    {0x41, 32, 0x3ff, 0xffc00, 0x3ff00000, 0xc0000000, 24}, {0x41, 32, 0xff, 0xff00, 0xff0000, 0xff000000, 28}, {0x40, 32, 0xffff, 0xffff0000, 0, 0, 35},
    {0x2, 8, 0, 0, 0, 0xff, 65}, {0x40, 16, 0xf800, 0x7e0, 0x1f, 0, 85}, {0x41, 16, 0x7c00, 0x3e0, 0x1f, 0x8000, 86}, {0x20001, 16, 0xff, 0, 0, 0xff00, 49},
    {0x20000, 16, 0xffff, 0, 0, 0, 56}, {0x20000, 8, 0xff, 0, 0, 0, 61}, {0x41, 32, 0xff0000, 0xff00, 0xff, 0xff000000, 87}, {0x40, 32, 0xff0000, 0xff00, 0xff, 0, 88},
    {0x41, 16, 0xf00, 0xf0, 0xf, 0xf000, 115}};

static unsigned dim(Src &s) {
  if (s.chance(1, 12)) return (1u << s.upto(20)) + s.upto(2);
  switch (s.upto(3)) {
  case 0: return 1 + s.upto(19);
  case 1: return std::min<unsigned>(16384, std::max<int>(1, (1 << s.upto(14)) + (int)s.upto(2) - 1));
  case 2: return 1 + s.upto(299);
  default: return 1 + s.upto(16383);
  }
}
static uint64_t levelSize(Kind k, unsigned bits, uint64_t w, uint64_t h) {
  switch (k) {
  case BLOCK: return ((w + 3) / 4) * ((h + 3) / 4) * bits * 2;
  case PAIRS: return ((w + 1) / 2) * h * (bits / 8);
  default: return (w * h * bits + 7) / 8;
  }
}

PBT_TEST(sizes, 60000, 3000000) {
  DDS d;
  Kind k; unsigned bits;
  std::string what;
  switch (s.upto(2)) {
  case 0: {
    const Ref &r = s.pick(table);
    d = DDSFormat_DX10;
    d.dxgiFormat = (DXGI_FORMAT)r.id;
    d.ComputeBPP();
    k = r.kind, bits = r.bits, what = "DXGI format " + pbt::show(r.id);
    break;
  }
  case 1: {
    const Leg &l = s.pick(fourccs);
    d.pfFlags = DDS::PFFlags_FourCC, d.fourCC = l.cc;
    d.ComputeBPP();
    k = l.kind, bits = l.bits, what = "fourCC " + pbt::show(l.cc);
    break;
  }
  default: {
    const Mask &m = s.pick(masks);
    DDS_PixelFormat pf;
    memcpy((void *)&pf.pfFlags, &m.flags, 4);
    pf.bpp = m.bits, pf.RBitMask = m.r, pf.GBitMask = m.g, pf.BBitMask = m.b, pf.ABitMask = m.a;
    d = pf;
    d.ComputeBPP();
    k = LINEAR, bits = m.bits, what = "masks of DXGI format " + pbt::show(m.dxgi);
  }
  }
  s.note([&](std::ostream &os) { os << what; });
  REQUIRE_EQ(d.bpp, bits, "bits per pixel of " << what);
  d.ComputeBPP();
  REQUIRE_EQ(d.bpp, bits, "bits per pixel asked again of " << what);
  if (k == PLANAR) return;
  unsigned w = dim(s), h = s.chance(1, 4) ? w : dim(s), full = 1;
  while (full < 15 && ((w >> full) || (h >> full))) full++;
  unsigned mips = s.chance(1, 10) ? 0 : s.chance(1, 3) ? full : 1 + s.upto(full - 1);
  d.width = w, d.height = h;
  d.NumMipmaps(mips);
  uint64_t total = 0;
  struct { uint32_t a[4]; DDS::Mips m; uint32_t b[4]; } o;
  memset(&o, 0xa5, sizeof o);
  unsigned n = std::max(1u, mips);
  std::vector<uint64_t> sz(n), off(n);
  for (unsigned m = 0; m < n; m++) off[m] = total, total += sz[m] = levelSize(k, bits, std::max(1u, w >> m), std::max(1u, h >> m));
  if (total > UINT32_MAX) return;
  if (n > 1 || w % 4 || h % 4) s.nontrivial();
  if (total * 8 > UINT32_MAX) s.label("large");
  if (k == BLOCK && (w % 4 || h % 4)) s.label("partial blocks");
  if (n == full && w != h) s.label("full chain, not square");
  const DDS &cd = d;
  uint32_t got = cd.ComputeBufferSize(o.m);
  std::string at = what + ", " + pbt::show(w) + " by " + pbt::show(h) + ", mips " + pbt::show(mips);
  for (unsigned m = 0; m < n; m++) {
    REQUIRE_EQ((uint64_t)o.m.sizes[m], sz[m], "size of level " << m << " of " << at);
    REQUIRE_EQ((uint64_t)o.m.offsets[m], off[m], "offset of level " << m << " of " << at);
  }
  REQUIRE_EQ((uint64_t)got, total, "total size of " << at);
  for (unsigned i = 0; i < 4; i++) REQUIRE(o.a[i] == 0xa5a5a5a5 && o.b[i] == 0xa5a5a5a5, "ComputeBufferSize wrote outside its argument");
  REQUIRE(d.mipMapCount == mips && d.width == w && d.height == h, "ComputeBufferSize changed the header");
}

// Headers of any content never make the computation leave its arrays.
PBT_TEST(hostile, 20000, 1000000) {
  DDS d;
  s.nontrivial();
  auto num = [&]() -> unsigned { switch (s.upto(3)) { case 0: return s.upto(20); case 1: return (unsigned)s.bits(32); case 2: return (unsigned)(1ull << s.upto(31)) - (unsigned)s.upto(1); default: return 0xffffffffu - s.upto(3); } };
  if (s.coin()) d = DDSFormat_DX10; else { d.fourCC = s.coin() ? s.pick(fourccs).cc : (unsigned)s.bits(32); if (s.coin()) d.bpp = num(); }
  d.dxgiFormat = (DXGI_FORMAT)num();
  d.width = num(), d.height = num(), d.mipMapCount = num() % 100000;
  unsigned id = d.dxgiFormat;
  d.ComputeBPP();
  if (d.fourCC == CC("DX10")) {
    unsigned want = 0;
    for (auto &r : table) if (r.id == id) want = r.bits;
    REQUIRE_EQ(d.bpp, want, "bits per pixel of DXGI format " << id);
  }
  struct { uint32_t a[4]; DDS::Mips m; uint32_t b[64]; } *o = new std::remove_pointer<decltype(o)>::type;
  memset(o, 0xa5, sizeof *o);
  d.ComputeBufferSize(o->m);
  bool ok = true;
  for (unsigned i = 0; i < 64; i++) ok &= o->b[i] == 0xa5a5a5a5 && o->a[i % 4] == 0xa5a5a5a5;
  delete o;
  REQUIRE(ok, "ComputeBufferSize wrote outside its argument, levels " << d.mipMapCount);
}

static bool same(const DDS &a, const DDS &b, const char *&what) {
  what = "pixel format";
  if (!(static_cast<const DDS_PixelFormat &>(a) == static_cast<const DDS_PixelFormat &>(b))) return false;
  what = "DXGI header";
  return a.dxgiFormat == b.dxgiFormat && a.dimension == b.dimension && memcmp(&a.miscFlag, &b.miscFlag, 4) == 0 && a.arraySize == b.arraySize && a.alphaMode == b.alphaMode;
}
static const unsigned srgbOf[] = {29, 28, 72, 71, 75, 74, 78, 77, 91, 87, 93, 88, 55, 56};

PBT_TEST(legacy, 40000, 1000000) {
  DDS d;
  d = DDSFormat_DX10;
  unsigned id = s.chance(1, 20) ? (unsigned)s.bits(32) : (unsigned)s.pick(table).id;
  if (s.chance(1, 2)) id = s.coin() ? s.pick(fourccs).dxgi : s.pick(masks).dxgi;
  bool force = s.coin(), premul = s.chance(1, 4);
  d.dxgiFormat = (DXGI_FORMAT)id;
  d.alphaMode = premul ? DDS::AlphaMode_Premultiplied : (DDS_HeaderDX10::AlphaMode)s.pick({0, 1, 3, 4});
  if (s.coin()) d.ComputeBPP();
  DDS before = d;
  const char *what;
  int rc = d.ToLegacy(force);
  s.note([&](std::ostream &os) { os << "format " << id << (force ? " forced" : ""); });
  unsigned base = id;
  for (int i = 0; i < 14; i += 2) if (srgbOf[i] == id) base = srgbOf[i + 1];
  bool known = false, plain = base == id && id;
  for (auto &l : fourccs) known |= l.dxgi && l.dxgi == base;
  for (auto &m : masks) known |= m.dxgi == base;
  if (rc) {
    REQUIRE(same(before, d, what), "a refused conversion changed the " << what << " of format " << id);
    REQUIRE(!(force && known), "no legacy form of format " << id);
    // forms every reader knows need no force
    for (auto &l : fourccs) REQUIRE(!(l.dxgi && l.dxgi == id), "no legacy form of format " << id);
    for (unsigned f : {24u, 28u, 35u, 65u, 85u, 86u}) REQUIRE(f != id, "no legacy form of format " << id);
    return;
  }
  s.nontrivial();
  REQUIRE(known, "format " << id << " got a legacy form");
  REQUIRE(force || plain, "format " << id << " lost its sRGB or depth meaning unforced");
  REQUIRE_EQ((unsigned)d.pfSize, 32u, "pixel format size");
  unsigned flags;
  memcpy(&flags, &d.pfFlags, 4);
  if (d.fourCC) {
    bool ok = false;
    for (auto &l : fourccs) if (l.cc == d.fourCC && l.dxgi == base && (!d.bpp || d.bpp == l.bits)) ok = true;
    REQUIRE(ok, "format " << id << " described as fourCC " << d.fourCC);
    REQUIRE_EQ(flags, 4u, "flags of a fourCC format");
    bool pm = d.fourCC == CC("DXT2") || d.fourCC == CC("DXT4");
    if (base == id && (id == 74 || id == 77)) REQUIRE(pm == premul, "premultiplied alpha of format " << id);
  } else {
    bool ok = false;
    for (auto &m : masks) ok |= m.dxgi == base && m.flags == flags && m.bits == d.bpp && m.r == d.RBitMask && m.g == d.GBitMask && m.b == d.BBitMask && m.a == d.ABitMask;
    REQUIRE(ok, "format " << id << " described as flags " << flags << " bits " << d.bpp << " masks " << std::hex << d.RBitMask << ' ' << d.GBitMask << ' ' << d.BBitMask << ' ' << d.ABitMask);
  }
  // a reader only knows the legacy part
  DDS r;
  static_cast<DDS_Header &>(r) = d, static_cast<DDS_PixelFormat &>(r) = d, static_cast<DDS_HeaderEnd &>(r) = d;
  if (r.fourCC && s.coin()) r.bpp = 0; // not stored by other writers
  rc = r.FromLegacy();
  REQUIRE(!rc, "the legacy form of format " << id << " is not read back");
  REQUIRE_EQ((unsigned)r.dxgiFormat, base, "format read back from the legacy form of " << id);
  REQUIRE(r.fourCC == CC("DX10"), "a converted header is not marked as modern");
  if (plain && (id == 74 || id == 77)) REQUIRE((r.alphaMode == DDS::AlphaMode_Premultiplied) == premul, "premultiplied alpha read back of format " << id);
  r.ComputeBPP();
  for (auto &t : table) if (t.id == base) REQUIRE_EQ(r.bpp, t.bits, "bits per pixel after conversion of " << id);
}

PBT_TEST(foreign, 20000, 500000) {
  // legacy headers of other writers
  DDS d;
  unsigned want;
  if (s.chance(1, 8)) { // unknown formats are refused
    static const Mask odd[] = {{0x40, 24, 0xff0000, 0xff00, 0xff, 0, 0}, {0x40, 16, 0x7c00, 0x3e0, 0x1f, 0, 0}, {0x41, 16, 0xe0, 0x1c, 3, 0xff00, 0}, {0x200, 24, 0xff, 0xff00, 0xff0000, 0, 0}};
    if (s.coin()) { const Mask &m = s.pick(odd); memcpy((void *)&d.pfFlags, &m.flags, 4); d.bpp = m.bits, d.RBitMask = m.r, d.GBitMask = m.g, d.BBitMask = m.b, d.ABitMask = m.a; }
    else { d.pfFlags = DDS::PFFlags_FourCC; d.fourCC = s.coin() ? CC("DX10") : CC("UYVY"); }
    DDS before = d;
    const char *what;
    REQUIRE(d.FromLegacy(), "a format without a modern form was converted");
    REQUIRE(same(before, d, what), "a refused conversion changed the " << what);
    return;
  }
  s.nontrivial();
  if (s.coin()) {
    const Leg &l = s.pick(fourccs);
    d.pfFlags = DDS::PFFlags_FourCC, d.fourCC = l.cc, want = l.dxgi;
    if (s.coin()) d.bpp = l.bits;
    if (!want) return;
  } else {
    const Mask &m = s.pick(masks);
    memcpy((void *)&d.pfFlags, &m.flags, 4);
    d.bpp = m.bits, d.RBitMask = m.r, d.GBitMask = m.g, d.BBitMask = m.b, d.ABitMask = m.a, want = m.dxgi;
  }
  unsigned cc = d.fourCC;
  REQUIRE(!d.FromLegacy(), "the legacy form of format " << want << " was refused");
  REQUIRE_EQ((unsigned)d.dxgiFormat, want, "format of a legacy header");
  REQUIRE_EQ((d.alphaMode == DDS::AlphaMode_Premultiplied), (cc == CC("DXT2") || cc == CC("DXT4")), "premultiplied alpha of a legacy header");
  REQUIRE(!d.ToLegacy(true), "the format of a legacy header has no way back");
  REQUIRE(!d.FromLegacy(), "converted twice");
  REQUIRE_EQ((unsigned)d.dxgiFormat, want, "format after two conversions");
}

static void put(std::string &o, uint32_t v) { for (int i = 0; i < 4; i++) o += (char)(v >> 8 * i); }

PBT_TEST(headers, 20000, 400000) {
  DDS d;
  s.nontrivial();
  d.width = dim(s), d.height = dim(s);
  bool modern = s.coin();
  uint32_t flags = 0x1007, c0 = 0x1000, c1 = 0;
  unsigned mips = s.upto(15);
  if (s.coin()) { // once more with another count
    d.NumMipmaps(1 + s.upto(14));
  }
  d.NumMipmaps(mips);
  if (mips > 1) flags |= 0x20000, c0 |= 0x400008;
  if (s.coin()) d.flags += DDS::Flags_Pitch, flags |= 8, d.pitchOrLinearSize = (uint32)s.bits(32);
  if (s.coin()) d.flags += DDS::Flags_LinearSize, flags |= 0x80000;
  if (s.coin()) d.flags += DDS::Flags_Depth, flags |= 0x800000, d.depth = (uint32)s.bits(12), d.caps01 += DDS::Caps01Flags_Volume, c1 |= 0x200000;
  static const DDS::Caps01Flags cube[] = {DDS::Caps01Flags_CubeMap, DDS::Caps01Flags_CubeMap_PositiveX, DDS::Caps01Flags_CubeMap_NegativeX, DDS::Caps01Flags_CubeMap_PositiveY,
                                          DDS::Caps01Flags_CubeMap_NegativeY, DDS::Caps01Flags_CubeMap_PositiveZ, DDS::Caps01Flags_CubeMap_NegativeZ};
  for (int i = 0; i < 7; i++) if (s.coin()) d.caps01 += cube[i], c1 |= 0x200 << i;
  std::string e("DDS ");
  std::string pf;
  if (modern) {
    d = DDSFormat_DX10;
    d.dxgiFormat = (DXGI_FORMAT)s.pick(table).id;
    d.arraySize = (uint32)s.bits(10);
    d.dimension = (DDS_HeaderDX10::Dimension)(2 + s.upto(2));
    if (s.coin()) d.miscFlag += DDS::MiscFlag_CubeTexture;
    d.alphaMode = (DDS_HeaderDX10::AlphaMode)s.upto(4);
    put(pf, 32), put(pf, 4), pf += "DX10", pf += std::string(20, 0);
  } else if (s.coin()) {
    static const DDS_PixelFormat *const f[] = {&DDSFormat_DXT1, &DDSFormat_DXT2, &DDSFormat_DXT3, &DDSFormat_DXT4, &DDSFormat_DXT5, &DDSFormat_BC4U, &DDSFormat_BC4S, &DDSFormat_BC5U, &DDSFormat_BC5S, &DDSFormat_ATI1, &DDSFormat_ATI2, &DDSFormat_YUY2, &DDSFormat_UYVY, &DDSFormat_G8R8_G8B8, &DDSFormat_R8G8_B8G8};
    static const char *const n[] = {"DXT1", "DXT2", "DXT3", "DXT4", "DXT5", "BC4U", "BC4S", "BC5U", "BC5S", "ATI1", "ATI2", "YUY2", "UYVY", "GRGB", "RGBG"};
    size_t i = s.upto(14);
    d = *f[i];
    put(pf, 32), put(pf, 4), pf += n[i], put(pf, f[i]->bpp), pf += std::string(16, 0);
  } else {
    static const DDS_PixelFormat *const f[] = {&DDSFormat_A2B10G10R10, &DDSFormat_A8R8G8B8, &DDSFormat_A1R5G5B5, &DDSFormat_A4R4G4B4, &DDSFormat_A8L8, &DDSFormat_X8R8G8B8, &DDSFormat_G16R16, &DDSFormat_R8G8B8, &DDSFormat_R5G6B5, &DDSFormat_L16, &DDSFormat_L8, &DDSFormat_A8};
    static const uint32_t n[][6] = {{0x41, 32, 0x3ff, 0xffc00, 0x3ff00000, 0xc0000000}, {0x41, 32, 0xff0000, 0xff00, 0xff, 0xff000000}, {0x41, 16, 0x7c00, 0x3e0, 0x1f, 0x8000}, {0x41, 16, 0xf00, 0xf0, 0xf, 0xf000},
                                    {0x20001, 16, 0xff, 0, 0, 0xff00}, {0x40, 32, 0xff0000, 0xff00, 0xff, 0}, {0x40, 32, 0xffff, 0xffff0000, 0, 0}, {0x40, 24, 0xff0000, 0xff00, 0xff, 0},
                                    {0x40, 16, 0xf800, 0x7e0, 0x1f, 0}, {0x20000, 16, 0xffff, 0, 0, 0}, {0x20000, 8, 0xff, 0, 0, 0}, {0x2, 8, 0, 0, 0, 0xff}};
    size_t i = s.upto(11);
    d = *f[i];
    put(pf, 32), put(pf, n[i][0]), put(pf, 0);
    for (int j = 1; j < 6; j++) put(pf, n[i][j]);
  }
  put(e, 124), put(e, flags), put(e, d.height), put(e, d.width), put(e, d.pitchOrLinearSize), put(e, d.depth), put(e, mips), e += std::string(44, 0), e += pf, put(e, c0), put(e, c1), e += std::string(12, 0);
  if (modern) put(e, d.dxgiFormat), put(e, d.dimension), put(e, d.miscFlag[DDS::MiscFlag_CubeTexture] ? 4 : 0), put(e, d.arraySize), put(e, d.alphaMode);
  std::stringstream st;
  BinWritterRef wr(st);
  if (modern) wr.Write(d); else wr.WriteBuffer(reinterpret_cast<const char *>(&d), DDS::LEGACY_SIZE);
  std::string got = st.str();
  REQUIRE_EQ(got.size(), e.size(), "size of a written header");
  for (size_t i = 0; i < e.size(); i++) REQUIRE(got[i] == e[i], "byte " << i << " of a written header is " << (int)(uint8_t)got[i] << ", not " << (int)(uint8_t)e[i]);
  BinReaderRef rd(st);
  DDS r;
  memset((void *)&r, 0x5a, sizeof r);
  r.dxgiFormat = d.dxgiFormat, r.dimension = d.dimension, r.miscFlag = d.miscFlag, r.arraySize = d.arraySize, r.alphaMode = d.alphaMode;
  if (modern) rd.Read(r); else rd.ReadBuffer(reinterpret_cast<char *>(&r), DDS::LEGACY_SIZE);
  REQUIRE(memcmp(&r, &d, sizeof d) == 0, "a header read back differs");
  for (int f : {0, 1, 2, 3, 12, 17, 19, 23}) REQUIRE_EQ((bool)r.flags[(DDS::Flags)f], (bool)(flags >> f & 1), "flag " << f << " read back");
}
