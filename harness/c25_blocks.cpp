// C25: block compressed textures.
#include "pbt.hpp"
#include <algorithm>
#include "formats/BlockDecoder.inl"
#include "formats/BlockDecoderSimd.hpp"
#include <memory>
using pbt::Src;

struct Px { double v[4]; bool clear = false; }; // B G R A, 0 to 255
static void rgb565(unsigned c, double *o) { o[0] = (c & 31) * 255.0 / 31, o[1] = (c >> 5 & 63) * 255.0 / 63, o[2] = (c >> 11) * 255.0 / 31; }
static std::vector<Px> bc1(const uint8_t *d, bool fourOnly) {
  unsigned c0 = d[0] | d[1] << 8, c1 = d[2] | d[3] << 8;
  double a[3], b[3];
  rgb565(c0, a), rgb565(c1, b);
  Px pal[4];
  for (int i = 0; i < 3; i++) {
    pal[0].v[i] = a[i], pal[1].v[i] = b[i];
    if (fourOnly || c0 > c1) pal[2].v[i] = (2 * a[i] + b[i]) / 3, pal[3].v[i] = (a[i] + 2 * b[i]) / 3;
    else pal[2].v[i] = (a[i] + b[i]) / 2, pal[3].v[i] = 0, pal[3].clear = true;
  }
  for (auto &p : pal) p.v[3] = p.clear ? 0 : 255;
  std::vector<Px> r(16);
  for (int i = 0; i < 16; i++) r[i] = pal[d[4 + i / 4] >> (i % 4 * 2) & 3];
  return r;
}
static std::vector<double> bc4(const uint8_t *d) {
  double t[8] = {(double)d[0], (double)d[1]};
  if (d[0] > d[1]) for (int i = 1; i < 7; i++) t[1 + i] = ((7 - i) * t[0] + i * t[1]) / 7;
  else { for (int i = 1; i < 5; i++) t[1 + i] = ((5 - i) * t[0] + i * t[1]) / 5; t[6] = 0, t[7] = 255; }
  uint64_t bits = 0;
  for (int i = 0; i < 6; i++) bits |= (uint64_t)d[2 + i] << (8 * i);
  std::vector<double> r(16);
  for (int i = 0; i < 16; i++) r[i] = t[bits >> (3 * i) & 7];
  return r;
}
enum Fmt { BC1, BC1A, BC2, BC3, BC4, BC5, BC5GA, SIMD1, NF };
static const char *const names[] = {"BC1", "BC1A", "BC2", "BC3", "BC4", "BC5", "BC5GA", "SIMD BC1"};
static const int bpp[] = {3, 4, 4, 4, 1, 3, 2, 3}, bsize[] = {8, 8, 16, 16, 8, 16, 16, 8};
static void decode(Fmt f, const char *d, char *o, uint32 w, uint32 h, uint32 width) {
  switch (f) {
  case BC1: return DecodeBC1Block(d, o, w, h, width);
  case BC1A: return DecodeBC1BlockA(d, o, w, h, width);
  case BC2: return DecodeBC2Block(d, o, w, h, width);
  case BC3: return DecodeBC3Block(d, o, w, h, width);
  case BC4: return DecodeBC4Block(d, o, w, h, width);
  case BC5: return DecodeBC5Block(d, o, w, h, width);
  case BC5GA: return DecodeBC5BlockGA(d, o, w, h, width);
  default: return _SDecodeBC1Block(d, o, w, h, width);
  }
}
// expected bytes: -1 not written, -2 anything
static void expect(Fmt f, const uint8_t *d, int px, double *e) {
  switch (f) {
  case BC1: case SIMD1: { Px p = bc1(d, false)[px]; for (int i = 0; i < 3; i++) e[i] = p.v[i]; break; }
  case BC1A: { Px p = bc1(d, false)[px]; for (int i = 0; i < 4; i++) e[i] = p.v[i]; if (p.clear) e[0] = e[1] = e[2] = -2; break; }
  case BC2: { Px p = bc1(d + 8, true)[px]; for (int i = 0; i < 3; i++) e[i] = p.v[i]; e[3] = (d[px / 2] >> (px % 2 * 4) & 15) * 17; break; }
  case BC3: { Px p = bc1(d + 8, true)[px]; for (int i = 0; i < 3; i++) e[i] = p.v[i]; e[3] = bc4(d)[px]; break; }
  case BC4: e[0] = bc4(d)[px]; break;
  case BC5: e[0] = -1, e[1] = bc4(d)[px], e[2] = bc4(d + 8)[px]; break;
  default: e[0] = bc4(d)[px], e[1] = bc4(d + 8)[px];
  }
}
static uint16_t colour(Src &s) {
  switch (s.upto(4)) {
  case 0: return (uint16_t)s.pick({0, 0xffff, 0xf800, 0x07e0, 0x001f, 0x8000, 0x7fff, 0x8410});
  default: return (uint16_t)s.bits(16);
  }
}
static void put16(std::string &b, unsigned v) { b += (char)v, b += (char)(v >> 8); }
static void colourBlock(Src &s, std::string &b) {
  unsigned c0 = colour(s), c1 = s.chance(1, 6) ? c0 : s.chance(1, 6) ? c0 + (s.coin() ? 1 : -1) : colour(s);
  put16(b, c0), put16(b, c1);
  switch (s.upto(3)) {
  case 0: b += std::string(4, (char)(s.upto(3) * 0x55)); break;
  case 1: for (int i = 0; i < 4; i++) b += (char)0xe4; break;
  default: for (int i = 0; i < 4; i++) b += (char)s.bits(8);
  }
}
static void alphaBlock(Src &s, std::string &b) {
  unsigned a0 = s.chance(1, 4) ? s.pick({0, 255, 127, 128, 1}) : s.bits(8), a1 = s.chance(1, 6) ? a0 : s.chance(1, 4) ? s.pick({0, 255, 127, 128}) : s.bits(8);
  b += (char)a0, b += (char)a1;
  if (s.chance(1, 3)) { uint64_t v = 0; for (int i = 0; i < 16; i++) v |= (uint64_t)(i & 7) << (3 * i); for (int i = 0; i < 6; i++) b += (char)(v >> (8 * i)); }
  else for (int i = 0; i < 6; i++) b += (char)s.bits(8);
}
PBT_TEST(images, 40000, 3000000) {
  Fmt f = (Fmt)s.upto(NF - 1);
  uint32 W = 1 + (uint32)s.upto(3), H = 1 + (uint32)s.upto(3);
  // places of blocks, some are not decoded
  std::vector<std::pair<uint32, uint32>> at;
  for (uint32 y = 0; y < H; y++) for (uint32 x = 0; x < W; x++) if (!s.chance(1, 5)) at.emplace_back(x, y);
  for (size_t i = at.size(); i > 1; i--) std::swap(at[i - 1], at[s.upto(i - 1)]);
  const int n = bpp[f];
  const size_t pitch = W * 4 * n, size = pitch * H * 4, lead = 1 + s.upto(15);
  std::string before = s.bulk(lead + size + 17);
  // ends exactly so that writing past the image is seen
  std::vector<char> mem(before.begin(), before.end());
  std::vector<double> want(size, -1);
  std::string last;
  for (auto &p : at) {
    std::string blk;
    if (f == BC2) { for (int i = 0; i < 8; i++) blk += (char)s.bits(8); }
    if (f == BC3 || f == BC4 || f == BC5 || f == BC5GA) alphaBlock(s, blk);
    if (f == BC5 || f == BC5GA) alphaBlock(s, blk);
    if (f != BC4 && f != BC5 && f != BC5GA) colourBlock(s, blk);
    REQUIRE_EQ((int)blk.size(), bsize[f], "block size");
    std::unique_ptr<char[]> exact(new char[blk.size()]);
    memcpy(exact.get(), blk.data(), blk.size());
    decode(f, exact.get(), mem.data() + lead, p.first, p.second, W);
    REQUIRE(!memcmp(exact.get(), blk.data(), blk.size()), "the block was changed");
    for (int i = 0; i < 16; i++) {
      double e[4];
      expect(f, (const uint8_t *)blk.data(), i, e);
      for (int c = 0; c < n; c++) want[(p.second * 4 + i / 4) * pitch + (p.first * 4 + i % 4) * n + c] = e[c];
    }
    last = blk;
  }
  for (size_t i = 0; i < mem.size(); i++) {
    double w = i < lead || i >= lead + size ? -1 : want[i - lead];
    if (w == -2) continue;
    size_t q = i - lead;
    if (w == -1) REQUIRE(mem[i] == before[i], names[f] << " changes byte " << (ptrdiff_t)q << " of an image of " << W << " by " << H << " blocks, which is no pixel of a decoded block");
    else REQUIRE(std::fabs((uint8_t)mem[i] - w) <= 1.001, names[f] << " channel " << q % n << " of pixel " << q % pitch / n << "," << q / pitch << " is " << (int)(uint8_t)mem[i] << ", not " << w << " (last block " << pbt::show(last) << ")");
  }
  s.label(names[f]);
  s.nontrivial(at.size() > 1);
  s.note([&](std::ostream &o) { o << names[f] << ", " << W << " by " << H << " blocks, " << at.size() << " decoded"; });
}
// rows and columns of more than 65536 pixels
PBT_TEST(large_images, 60, 1500) {
  Fmt f = (Fmt)s.upto(NF - 1);
  const bool tall = s.coin();
  const uint32 big = 15000 + (uint32)s.upto(30000), small = 1 + (uint32)s.upto(1);
  const uint32 W = tall ? small : big, H = tall ? big : small;
  const int n = bpp[f];
  const size_t pitch = size_t(W) * 4 * n, size = pitch * H * 4;
  std::vector<char> mem(size, 0x5a), ref(size, 0x5a);
  std::vector<std::pair<uint32, uint32>> at;
  for (int k = 0; k < 4; k++) {
    uint32 far = s.coin() ? big - 1 : s.chance(1, 3) ? 16383 + (uint32)s.upto(2) : (uint32)s.upto(big - 1);
    if (far >= big) far = big - 1;
    uint32 x = tall ? (uint32)s.upto(small - 1) : far, y = tall ? far : (uint32)s.upto(small - 1);
    if (std::find(at.begin(), at.end(), std::make_pair(x, y)) != at.end()) continue;
    at.emplace_back(x, y);
    std::string blk;
    if (f == BC2) { for (int i = 0; i < 8; i++) blk += (char)s.bits(8); }
    if (f == BC3 || f == BC4 || f == BC5 || f == BC5GA) alphaBlock(s, blk);
    if (f == BC5 || f == BC5GA) alphaBlock(s, blk);
    if (f != BC4 && f != BC5 && f != BC5GA) colourBlock(s, blk);
    decode(f, blk.data(), mem.data(), x, y, W);
    for (int i = 0; i < 16; i++) {
      double e[4];
      expect(f, (const uint8_t *)blk.data(), i, e);
      for (int c = 0; c < n; c++) {
        size_t q = (size_t(y) * 4 + i / 4) * pitch + (size_t(x) * 4 + i % 4) * n + c;
        if (e[c] >= 0) REQUIRE(std::fabs((uint8_t)mem[q] - e[c]) <= 1.001, names[f] << " channel " << c << " of pixel " << i << " of the block at " << x << "," << y << " of " << W << " by " << H << " is " << (int)(uint8_t)mem[q] << ", not " << e[c]);
        ref[q] = mem[q];
      }
    }
  }
  REQUIRE(mem == ref, names[f] << " changes pixels outside of the blocks of an image of " << W << " by " << H << " blocks");
  s.label(names[f]);
  s.nontrivial(size_t(big) * 4 > 65536);
  s.note([&](std::ostream &o) { o << names[f] << ", " << W << " by " << H << " blocks"; });
}
// every pair of endpoints comes up over time: one block, four indices in each row
PBT_TEST(vectorised, 40000, 3000000) {
  std::string b;
  colourBlock(s, b);
  char p[48], v[48];
  DecodeBC1Block(b.data(), p, 0, 0, 1);
  _SDecodeBC1Block(b.data(), v, 0, 0, 1);
  for (int i = 0; i < 48; i++) REQUIRE(std::abs((int)(uint8_t)p[i] - (int)(uint8_t)v[i]) <= 1, "channel " << i % 3 << " of pixel " << i / 3 << ": plain " << (int)(uint8_t)p[i] << ", vectorised " << (int)(uint8_t)v[i] << ", block " << pbt::show(b));
  Vector c;
  DecodeRGB565Block(b.data(), c);
  double e[3];
  rgb565((uint8_t)b[0] | (uint8_t)b[1] << 8, e);
  for (int i = 0; i < 3; i++) REQUIRE(std::fabs(c[i] - e[i] / 255) < 1e-6, "colour of the endpoint, channel " << i);
  s.nontrivial(b[0] != b[2] || b[1] != b[3]);
}
PBT_TEST(normal_blue, 12000, 300000) {
  size_t n = s.chance(1, 30) ? s.upto(s.chance(1, 10) ? 120000 : 3000) : s.size(40);
  std::string d = s.bulk(n * 3 + 8);
  for (size_t i = 0; i < n; i++) if ((n < 200 || i < 100) && s.chance(1, 3)) for (int c = 1; c < 3; c++) d[i * 3 + c] = (char)s.pick({0, 255, 127, 128, 126, 129, 64, 192, 37, 218});
  std::vector<char> m(d.begin(), d.end());
  ComputeBC5Blue(m.data(), (uint32)(n * 3));
  for (size_t i = 0; i < m.size(); i++) {
    if (i >= n * 3 || i % 3) { REQUIRE(m[i] == d[i], "byte " << i << " of " << n << " pixels changed"); continue; }
    double g = (uint8_t)d[i + 1] / 127.5 - 1, r = (uint8_t)d[i + 2] / 127.5 - 1, z = std::sqrt(std::max(0.0, 1 - g * g - r * r));
    REQUIRE(std::fabs((uint8_t)m[i] - (z + 1) * 127.5) <= 2.01, "blue of pixel " << i / 3 << " is " << (int)(uint8_t)m[i] << ", not " << (z + 1) * 127.5);
  }
  s.nontrivial(n > 1);
}
