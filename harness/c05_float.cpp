// C05: small floats against arithmetic on the fields (ldexp).
#include "pbt.hpp"
#include "datas/float.hpp"
#include <cmath>
using pbt::Src;

struct Bits {
  unsigned M, E;
  bool S;
};
static uint32_t fb(float f) {
  uint32_t u;
  memcpy(&u, &f, 4);
  return u;
}
// value of a bit pattern, in double
static double refValue(const Bits &f, uint32_t v, bool &nan, bool &neg) {
  uint32_t m = v & ((1u << f.M) - 1), e = (v >> f.M) & ((1u << f.E) - 1);
  neg = f.S && (v >> (f.M + f.E) & 1);
  int bias = (1 << (f.E - 1)) - 1;
  nan = false;
  double r;
  if (e == (1u << f.E) - 1) {
    nan = m != 0;
    r = INFINITY;
  } else if (!e)
    r = std::ldexp((double)m, 1 - bias - (int)f.M);
  else
    r = std::ldexp((double)(m | 1u << f.M), (int)e - bias - (int)f.M);
  return neg ? -r : r;
}

template <unsigned M, unsigned E, bool S> struct T {
  typedef esFloat<M, E, S> F;
  static constexpr unsigned N = M + E + S;
  static void checkExpand(uint32_t v, float g, const char *how) {
    Bits b{M, E, S};
    bool nan, neg;
    double r = refValue(b, v, nan, neg);
    if (nan) {
      REQUIRE(std::isnan(g), how << " pattern " << v << " of " << M << "/" << E << "/" << S << " is NaN, got " << g);
      REQUIRE_EQ((bool)std::signbit(g), neg, how << " NaN sign, pattern " << v);
      return;
    }
    REQUIRE((double)g == r && (bool)std::signbit(g) == neg, how << " pattern " << v << " of " << M << "/" << E << "/" << S << " expanded to " << pbt::show(g) << " expected " << r);
  }
  static void exact(uint32_t v0, uint32_t v1, uint32_t v2, uint32_t v3) {
    uint32_t v[4] = {v0, v1, v2, v3};
    for (auto x : v) {
      float g = F::ToFloat(x);
      checkExpand(x, g, "scalar");
      size_t c = F::FromFloat(g);
      REQUIRE_EQ((uint64_t)c, (uint64_t)x, "pattern " << x << " of " << M << "/" << E << "/" << S << " expanded to " << pbt::show(g) << " compressed");
    }
    Vector4A16 r = F::ToVector4(IVector4A16((int32)v[0], (int32)v[1], (int32)v[2], (int32)v[3]));
    float o[4];
    memcpy(o, &r, 16);
    for (int i = 0; i < 4; i++) {
      checkExpand(v[i], o[i], "vector");
      REQUIRE_EQ(fb(o[i]), fb(F::ToFloat(v[i])), "lane " << i << " differs from scalar, pattern " << v[i]);
    }
    IVector4A16 c = F::FromVector4(r);
    uint32_t ci[4];
    memcpy(ci, &c, 16);
    for (int i = 0; i < 4; i++)
      REQUIRE_EQ(ci[i], v[i], "vector compress, lane " << i << " of " << M << "/" << E << "/" << S);
  }
  // numbers between representable ones
  static void between(Src &s) {
    float in[4];
    uint32_t got[4];
    Bits b{M, E, S};
    bool nan, neg;
    double top = refValue(b, (((1u << E) - 1) << M) - 1, nan, neg);
    double tiny = refValue(b, 1, nan, neg);
    for (auto &f : in) {
      uint32_t p = (uint32_t)s.upto((((1u << E) - 1) << M) - 2);
      double lo = refValue(b, p, nan, neg), hi = refValue(b, p + 1, nan, neg);
      double d = lo + (hi - lo) * ((double)s.upto(4096) / 4096);
      if (s.chance(1, 8)) d = std::ldexp((double)s.range(1, 1 << 24), (int)s.irange(-170, 100));
      f = (float)d;
      if (f > top) f = (float)top;
      if (f != 0 && f < std::ldexp(1., -126)) f = E == 8 ? 0.f : f; // single precision subnormals
      if (S && s.coin()) f = -f;
    }
    for (int i = 0; i < 4; i++) {
      float f = in[i];
      got[i] = (uint32_t)F::FromFloat(f);
      double a = std::fabs((double)f);
      REQUIRE(got[i] < (1ull << N), "compressed " << f << " to " << got[i] << ", wider than the format " << M << "/" << E << "/" << S);
      double r = refValue(b, got[i], nan, neg);
      REQUIRE(!nan && std::isfinite(r), "compressed " << pbt::show(f) << " to non-finite pattern " << got[i]);
      REQUIRE_EQ(neg, (bool)(S && std::signbit(f)), "sign of " << pbt::show(f) << " pattern " << got[i]);
      // neighbours of the result enclose the number
      uint32_t m = got[i] & ((1u << (M + E)) - 1);
      double up = m + 1 < (((1u << E) - 1) << M) ? refValue(b, m + 1, nan, neg) : std::fabs(r);
      double dn = m ? refValue(b, m - 1, nan, neg) : 0;
      r = std::fabs(r);
      REQUIRE((a >= r ? a < up || a == r : a > dn), "compressed " << pbt::show(f) << " to " << r << " in " << M << "/" << E << "/" << S << ", not next to it");
      (void)tiny;
    }
    IVector4A16 c = F::FromVector4(Vector4A16(in[0], in[1], in[2], in[3]));
    uint32_t ci[4];
    memcpy(ci, &c, 16);
    for (int i = 0; i < 4; i++)
      REQUIRE_EQ(ci[i], got[i], "lane " << i << " differs from scalar for " << pbt::show(in[i]) << " in " << M << "/" << E << "/" << S);
    s.nontrivial();
    s.note([&](std::ostream &o) { o << M << "/" << E << "/" << S << ":"; for (auto f : in) o << " " << f; });
  }
  static void run(Src &s, int mode) {
    if (mode == 0) {
      uint32_t v[4];
      for (auto &x : v) {
        x = (uint32_t)s.bits(N);
        if (s.chance(1, 6)) x = (x & ~F::EXPONENT_MASK) | (s.coin() ? F::EXPONENT_MASK : 0);
      }
      exact(v[0], v[1], v[2], v[3]);
      s.nontrivial((v[0] | v[1] | v[2] | v[3]) != 0);
      s.note([&](std::ostream &o) { o << M << "/" << E << "/" << S << " " << v[0] << " " << v[1] << " " << v[2] << " " << v[3]; });
    } else if (mode == 1)
      between(s);
    else { // exhaustive over a block of patterns
      uint32_t blk = (uint32_t)s.upto(((1u << N) / 64) ? (1u << N) / 64 - 1 : 0) * 64;
      for (uint32_t i = 0; i < 64; i += 4)
        exact(blk + i & ((1u << N) - 1), blk + i + 1 & ((1u << N) - 1), blk + i + 2 & ((1u << N) - 1), (blk + i + 3) * 2654435761u >> (32 - N));
      s.nontrivial();
    }
  }
};

static void dispatch(Src &s, int mode) {
  switch (s.upto(11)) {
  case 0:
  case 1:
  case 2: return T<10, 5, true>::run(s, mode);
  case 3: return T<6, 5, false>::run(s, mode);
  case 4: return T<5, 5, false>::run(s, mode);
  case 5: return T<5, 5, true>::run(s, mode);
  case 6: return T<7, 8, true>::run(s, mode);
  case 7: return T<3, 4, true>::run(s, mode);
  case 8: return T<2, 5, true>::run(s, mode);
  case 9: return T<9, 5, false>::run(s, mode);
  case 10: return T<11, 4, true>::run(s, mode);
  default: return T<8, 6, false>::run(s, mode);
  }
}
PBT_TEST(patterns, 300000, 6000000) { dispatch(s, 0); }
PBT_TEST(in_between, 300000, 6000000) { dispatch(s, 1); }
PBT_TEST(blocks, 40000, 200000) { dispatch(s, 2); }

// packed 11-11-10
PBT_TEST(packed_11_11_10, 300000, 6000000) {
  uint32_t r = (uint32_t)s.bits(11), g = (uint32_t)s.bits(11), b = (uint32_t)s.bits(10);
  VectorR11G11B10_UFLOAT p;
  p.data = r | g << 11 | b << 22;
  Vector4A16 v = p;
  float o[4];
  memcpy(o, &v, 16);
  s.nontrivial(r && g && b);
  s.note([&](std::ostream &os) { os << "r=" << r << " g=" << g << " b=" << b; });
  Bits B11{6, 5, false}, B10{5, 5, false};
  bool nan, neg;
  auto cmp = [&](float got, double e, const char *n) {
    if (nan) REQUIRE(std::isnan(got), n << " expected NaN, got " << got << " of " << p.data);
    else REQUIRE((double)got == e, n << " of " << p.data << " is " << pbt::show(got) << " expected " << e);
  };
  double e = refValue(B11, r, nan, neg);
  cmp(o[0], e, "red");
  e = refValue(B11, g, nan, neg);
  cmp(o[1], e, "green");
  // the narrow component is accurate to one step of its own width
  e = refValue(B10, b, nan, neg);
  if (nan) REQUIRE(std::isnan(o[2]), "blue NaN");
  else if (std::isinf(e)) REQUIRE(o[2] == e || std::isnan(o[2]), "blue infinity, got " << o[2]);
  else {
    bool n2;
    double up = refValue(B10, b + 1, n2, neg);
    REQUIRE(o[2] >= e && (o[2] < up), "blue of " << p.data << " is " << pbt::show(o[2]) << " expected " << e);
  }
  REQUIRE(o[3] == 0.f, "fourth component " << o[3]);
}
