// C27: swizzled texture addresses.
#include "pbt.hpp"
#include "formats/addr_ps3.hpp"
using pbt::Src;

static uint64_t ref(uint64_t x, uint64_t y, unsigned wb, unsigned hb) {
  uint64_t r = 0;
  unsigned o = 0;
  for (unsigned b = 0; b < std::max(wb, hb); b++) {
    if (b < wb) r |= (x >> b & 1) << o++;
    if (b < hb) r |= (y >> b & 1) << o++;
  }
  return r;
}
static uint64_t coord(Src &s, uint64_t n) {
  switch (s.upto(3)) {
  case 0: return s.upto(n - 1);
  case 1: return n - 1 - std::min<uint64_t>(n - 1, s.upto(3));
  case 2: return (uint64_t(1) << s.upto(n >> 14 ? 40 : 14)) & (n - 1);
  default: return s.upto(std::min<uint64_t>(31, n - 1));
  }
}
PBT_TEST(addresses, 150000, 10000000) {
  unsigned wb = s.upto(14), hb = s.chance(1, 4) ? wb : s.upto(14);
  if (s.chance(1, 6)) { // the longer side may be of any length
    (s.coin() ? wb : hb) = 14 + s.upto(16);
    if (wb > 13 && hb > 13) (s.coin() ? wb : hb) = s.upto(13);
    s.label("beyond 16384");
  }
  MortonSettings st(size_t(1) << wb, size_t(1) << hb);
  REQUIRE(st.width == size_t(1) << wb && st.height == size_t(1) << hb, "dimensions");
  for (int i = 0, n = 1 + s.upto(3); i < n; i++) {
    uint64_t x = coord(s, uint64_t(1) << wb), y = coord(s, uint64_t(1) << hb);
    if (x && y) s.nontrivial();
    if (wb > hb && x >> hb) s.label("wide rest");
    if (hb > wb && y >> wb) s.label("tall rest");
    size_t a = MortonAddr(x, y, st);
    REQUIRE_EQ((uint64_t)a, ref(x, y, wb, hb), "address of " << x << ',' << y << " in a texture of " << (1u << wb) << " by " << (1u << hb));
  }
}
// whole textures: every texel its own address
PBT_TEST(whole, 300, 6000) {
  unsigned wb = s.upto(12), hb = s.upto(14 - std::min(14u, wb));
  size_t w = size_t(1) << wb, h = size_t(1) << hb;
  if (w > 1 && h > 1) s.nontrivial();
  MortonSettings st(w, h);
  std::vector<char> seen(w * h);
  for (size_t y = 0; y < h; y++)
    for (size_t x = 0; x < w; x++) {
      size_t a = MortonAddr(x, y, st);
      REQUIRE(a < w * h, "address " << a << " of " << x << ',' << y << " is outside the texture of " << w << " by " << h);
      REQUIRE(!seen[a], "address " << a << " given twice in the texture of " << w << " by " << h);
      seen[a] = 1;
    }
}
// one address function for one program
size_t c27_other(size_t x, size_t y, size_t w, size_t h);
PBT_TEST(shared, 2000, 10000) {
  unsigned wb = s.upto(14), hb = s.upto(14), x = coord(s, 1u << wb), y = coord(s, 1u << hb);
  if (x && y) s.nontrivial();
  REQUIRE_EQ((uint64_t)c27_other(x, y, size_t(1) << wb, size_t(1) << hb), ref(x, y, wb, hb), "address computed in another source file");
}
