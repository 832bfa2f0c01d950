// C02: byte swapping against plain byte reversal.
#include "pbt.hpp"
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include "datas/bitfield.hpp"
#include "datas/endian.hpp"
#include "datas/matrix44.hpp"
#include "datas/vectors.hpp"
#include "datas/vectors_simd.hpp"
#include <array>
#include <sstream>
using pbt::Src;
using std::string;

static string revEach(const string &b, size_t w) {
  string r = b;
  for (size_t i = 0; i + w <= b.size(); i += w)
    std::reverse(r.begin() + i, r.begin() + i + w);
  return r;
}
static string interesting(Src &s, size_t n, size_t w) {
  string b;
  while (b.size() < n) {
    uint64_t v = w >= 8 ? s.bits(64) : s.bits(unsigned(w * 8));
    if (w == 4 && s.chance(1, 6)) // NaNs, quiet and signalling, infinities
      v = (s.coin() ? 0x7f800000u : 0xff800000u) | s.upto(0x7fffff);
    if (w == 8 && s.chance(1, 6))
      v = (s.coin() ? 0x7ff0ull << 48 : 0xfff0ull << 48) | s.upto((1ull << 52) - 1);
    b.append((const char *)&v, std::min(w, n - b.size()));
  }
  return b;
}
static string bytesOf(const void *p, size_t n) { return string((const char *)p, n); }

enum class E16 : uint16 { a };
enum class E32 : int32 { a };
enum class E64 : uint64 { a };
enum EPlain { EP };

// raw object surrounded by guards
template <class T> struct Guarded {
  alignas(16) unsigned char pre[16];
  alignas(16) unsigned char mid[sizeof(T)];
  unsigned char post[16];
  Guarded(const string &b) {
    memset(pre, 0xc3, 16);
    memset(post, 0x3c, 16);
    memcpy(mid, b.data(), sizeof(T));
  }
  T &get() {
    return *reinterpret_cast<T *>(mid);
  }
  void check(const char *n) {
    for (auto c : pre)
      REQUIRE(c == 0xc3, n << ": byte before the value changed");
    for (auto c : post)
      REQUIRE(c == 0x3c, n << ": byte behind the value changed");
  }
  string bytes() { asm volatile("" ::: "memory"); return bytesOf(mid, sizeof(T)); }
};

template <class T> void checkObj(Src &s, size_t w, const char *n) {
  string b = interesting(s, sizeof(T), w);
  bool dir = s.coin();
  Guarded<T> g(b);
  asm volatile("" ::: "memory");
  FByteswapper(g.get(), dir);
  s.nontrivial(revEach(b, w) != b);
  s.note([&](std::ostream &o) { o << n << " " << pbt::hex(b.data(), b.size()); });
  REQUIRE(g.bytes() == revEach(b, w), n << " swap of " << pbt::hex(b.data(), b.size()) << " gave "
                                         << pbt::hex(g.mid, sizeof(T)));
  FByteswapper(g.get(), !dir);
  REQUIRE(g.bytes() == b, n << " swapped twice is not the original");
  g.check(n);
}

template <class T, size_t N> void checkArr(Src &s, const char *n) {
  typedef T A[N];
  string b = interesting(s, sizeof(A), sizeof(T));
  Guarded<A> g(b);
  asm volatile("" ::: "memory");
  FByteswapper(g.get(), s.coin());
  s.nontrivial(N > 1);
  REQUIRE(g.bytes() == revEach(b, sizeof(T)), n << "[" << N << "] swap of " << pbt::hex(b.data(), b.size()) << " gave " << pbt::hex(g.mid, sizeof(A)));
  FByteswapper(g.get());
  REQUIRE(g.bytes() == b, n << " array swapped twice");
  g.check(n);
}

PBT_TEST(scalars, 120000, 3000000) {
  switch (s.upto(13)) {
  case 0: return checkObj<uint16>(s, 2, "uint16");
  case 1: return checkObj<int16>(s, 2, "int16");
  case 2: return checkObj<uint32>(s, 4, "uint32");
  case 3: return checkObj<int32>(s, 4, "int32");
  case 4: return checkObj<uint64>(s, 8, "uint64");
  case 5: return checkObj<int64>(s, 8, "int64");
  case 6: return checkObj<float>(s, 4, "float");
  case 7: return checkObj<double>(s, 8, "double");
  case 8: return checkObj<E16>(s, 2, "enum16");
  case 9: return checkObj<E32>(s, 4, "enum32");
  case 10: return checkObj<E64>(s, 8, "enum64");
  case 11: return checkObj<EPlain>(s, 4, "plain enum");
  case 12: return checkObj<char16_t>(s, 2, "char16_t");
  default: return checkObj<char32_t>(s, 4, "char32_t");
  }
}

PBT_TEST(arrays, 80000, 2000000) {
  if (s.chance(1, 500)) // longer than small counters hold
    return s.coin() ? checkArr<uint16, 66000>(s, "uint16") : checkArr<uint64, 8200>(s, "uint64");
  switch (s.upto(12)) {
  case 0: return checkArr<uint16, 1>(s, "uint16");
  case 1: return checkArr<uint16, 7>(s, "uint16");
  case 2: return checkArr<uint32, 3>(s, "uint32");
  case 3: return checkArr<uint64, 5>(s, "uint64");
  case 4: return checkArr<float, 4>(s, "float");
  case 5: return checkArr<double, 3>(s, "double");
  case 6: return checkArr<int16, 33>(s, "int16");
  case 7: return checkArr<int64, 2>(s, "int64");
  case 8: return checkArr<E32, 6>(s, "enum32");
  case 10: return checkArr<uint16, 300>(s, "uint16");
  case 11: return checkArr<uint32, 129>(s, "uint32");
  case 12: return checkArr<double, 70>(s, "double");
  default: return checkArr<int32, 16>(s, "int32");
  }
}

template <class V> void checkVecArr(Src &s, const char *n, size_t w) {
  typedef V A[3];
  string b = interesting(s, sizeof(A), w);
  Guarded<A> g(b);
  asm volatile("" ::: "memory");
  FByteswapper(g.get());
  s.nontrivial();
  REQUIRE(g.bytes() == (w == 1 ? b : revEach(b, w)), n << "[3] swap of " << pbt::hex(b.data(), b.size()) << " gave " << pbt::hex(g.mid, sizeof(A)));
  g.check(n);
}

PBT_TEST(vectors, 120000, 2500000) {
  switch (s.upto(19)) {
  case 0: return checkObj<t_Vector2<float>>(s, 4, "Vector2");
  case 1: return checkObj<t_Vector2<uint16>>(s, 2, "USVector2");
  case 2: return checkObj<t_Vector2<uint64>>(s, 8, "t_Vector2<uint64>");
  case 3: return checkObj<t_Vector<float>>(s, 4, "Vector");
  case 4: return checkObj<t_Vector<int16>>(s, 2, "SVector");
  case 5: return checkObj<t_Vector<uint32>>(s, 4, "UIVector");
  case 6: return checkObj<t_Vector<double>>(s, 8, "t_Vector<double>");
  case 7: return checkObj<Vector4>(s, 4, "Vector4");
  case 8: return checkObj<USVector4>(s, 2, "USVector4");
  case 9: return checkObj<IVector4>(s, 4, "IVector4");
  case 10: return checkObj<Vector4A16>(s, 4, "Vector4A16");
  case 11: return checkObj<IVector4A16>(s, 4, "IVector4A16");
  case 12: return checkObj<esMatrix44>(s, 4, "esMatrix44");
  case 13: { // one-byte components stay
    string b = s.bytes(4);
    Guarded<t_Vector4_<V4ScalarType<uint8>>> g(b);
    FByteswapper(g.get());
    REQUIRE(g.bytes() == b, "byte vector changed");
    Guarded<t_Vector<int8>> g3(b);
    FByteswapper(g3.get());
    REQUIRE(g3.bytes() == b.substr(0, 3), "byte vector changed");
    Guarded<t_Vector2<uint8>> g2(b);
    FByteswapper(g2.get());
    REQUIRE(g2.bytes() == b.substr(0, 2), "byte vector changed");
    return;
  }
  case 14: return checkVecArr<t_Vector<float>>(s, "Vector", 4);
  case 15: return checkVecArr<t_Vector2<int16>>(s, "SVector2", 2);
  case 16: return checkVecArr<Vector4A16>(s, "Vector4A16", 4);
  case 17: return checkVecArr<USVector4>(s, "USVector4", 2);
  case 18: return checkVecArr<t_Vector<uint8>>(s, "UCVector", 1);
  default: return checkVecArr<esMatrix44>(s, "esMatrix44", 4);
  }
}

// every component type in every length
template <class T> void vectorsOf(Src &s, const char *n) {
  if (sizeof(T) == 1) return checkVecArr<t_Vector4<T>>(s, n, 1);
  switch (s.upto(3)) {
  case 0: return checkObj<t_Vector2<T>>(s, sizeof(T), n);
  case 1: return checkObj<t_Vector<T>>(s, sizeof(T), n);
  case 2: return checkVecArr<t_Vector4<T>>(s, n, sizeof(T));
  default: return checkObj<t_Vector4<T>>(s, sizeof(T), n);
  }
}
PBT_TEST(vector_types, 60000, 1000000) {
  switch (s.upto(10)) {
  case 0: return vectorsOf<int16>(s, "vector of int16");
  case 1: return vectorsOf<uint16>(s, "vector of uint16");
  case 2: return vectorsOf<int32>(s, "vector of int32");
  case 3: return vectorsOf<uint32>(s, "vector of uint32");
  case 4: return vectorsOf<int64>(s, "vector of int64");
  case 5: return vectorsOf<uint64>(s, "vector of uint64");
  case 6: return vectorsOf<float>(s, "vector of float");
  case 7: return vectorsOf<int8>(s, "vector of int8");
  case 8: return vectorsOf<uint8>(s, "vector of uint8");
  case 9: return checkObj<UIVector4A16>(s, 4, "UIVector4A16");
  default: return vectorsOf<double>(s, "vector of double");
  }
}

// a structure seen as an array of elements
template <class E, size_t N> void checkView(Src &s, const char *n) {
  struct S {
    unsigned char b[N];
  };
  // byte storage aligned for E
  string b = interesting(s, N, sizeof(E));
  Guarded<S> g(b);
  asm volatile("" ::: "memory");
  FArraySwapper<E>(g.get());
  s.nontrivial(N > sizeof(E));
  REQUIRE(g.bytes() == revEach(b, sizeof(E)), n << " view of " << N << " bytes: " << pbt::hex(b.data(), N) << " gave " << pbt::hex(g.mid, N));
  FArraySwapper<E>(g.get());
  REQUIRE(g.bytes() == b, n << " view swapped twice");
  g.check(n);
}
template <class E> void views(Src &s, const char *n) {
  if (s.chance(1, 40)) return s.coin() ? checkView<E, 2063>(s, n) : checkView<E, 520>(s, n);
  if (s.chance(1, 1000)) return checkView<E, 540000>(s, n);
  switch (s.upto(9)) {
  case 0: return checkView<E, 8>(s, n);
  case 1: return checkView<E, 9>(s, n);
  case 2: return checkView<E, 11>(s, n);
  case 3: return checkView<E, 12>(s, n);
  case 4: return checkView<E, 16>(s, n);
  case 5: return checkView<E, 7>(s, n);
  case 6: return checkView<E, 31>(s, n);
  case 7: return checkView<E, 64>(s, n);
  case 8: return checkView<E, 1>(s, n);
  default: return checkView<E, 26>(s, n);
  }
}
PBT_TEST(structure_views, 80000, 1500000) {
  switch (s.upto(5)) {
  case 0: return views<uint16>(s, "uint16");
  case 1: return views<uint32>(s, "uint32");
  case 2: return views<uint64>(s, "uint64");
  case 3: return views<float>(s, "float");
  case 4: return views<double>(s, "double");
  default: return views<int16>(s, "int16");
  }
}

// types with their own swapping
struct Own {
  uint32 v;
  uint16 calls;
  uint16 pad;
  void SwapEndian() {
    calls++;
    FByteswapper(v);
  }
};
struct OwnDir {
  uint32 v;
  uint16 in, out;
  void SwapEndian(bool outWay) {
    (outWay ? out : in)++;
    FByteswapper(v);
  }
};
struct Both : OwnDir {}; // inherited
template <size_t N> struct OwnBig : OwnDir { char rest[N]; };
template <class T, size_t N> static void ownArr(Src &s, uint32 v, bool dir) {
  T o[N];
  std::vector<uint32> was(N);
  for (size_t i = 0; i < N; i++) {
    memset((void *)&o[i], 0, sizeof(T));
    o[i].v = was[i] = v * (uint32)(i * 2 + 1) + (uint32)i;
  }
  FByteswapper(o, dir);
  for (size_t i = 0; i < N; i++)
    REQUIRE(o[i].v == __builtin_bswap32(was[i]) && o[i].in == !dir && o[i].out == dir,
            "array of " << N << " own, element " << i << ": v=" << o[i].v << " in=" << o[i].in << " out=" << o[i].out << " asked out=" << dir);
  FByteswapper(o, !dir);
  for (size_t i = 0; i < N; i++)
    REQUIRE(o[i].v == was[i] && o[i].in == 1 && o[i].out == 1, "array of " << N << " own swapped back, element " << i);
  s.nontrivial();
}
template <class T> static void ownArrs(Src &s, uint32 v, bool dir) {
  switch (s.upto(7)) {
  case 0: return ownArr<T, 1>(s, v, dir);
  case 1: return ownArr<T, 2>(s, v, dir);
  case 2: return ownArr<T, 7>(s, v, dir);
  case 3: return ownArr<T, 9>(s, v, dir);
  case 4: return ownArr<T, 16>(s, v, dir);
  case 5: return ownArr<T, 33>(s, v, dir);
  case 6: return ownArr<T, 100>(s, v, dir);
  default: return ownArr<T, 300>(s, v, dir);
  }
}
PBT_TEST(own_swapping, 40000, 600000) {
  uint32 v = (uint32)s.bits(32);
  bool dir = s.coin();
  uint32 rv = __builtin_bswap32(v);
  s.nontrivial();
  size_t n = 0;
  switch (s.upto(11)) {
  case 8: return ownArrs<OwnBig<3>>(s, v, dir);
  case 9: return ownArrs<OwnBig<13>>(s, v, dir);
  case 10: return ownArrs<OwnBig<300>>(s, v, dir);
  case 0: {
    Own o{v, 0, 0x1234};
    FByteswapper(o, dir);
    REQUIRE(o.v == rv && o.calls == 1 && o.pad == 0x1234, "own swap: v=" << o.v << " calls=" << o.calls);
    break;
  }
  case 1: {
    OwnDir o{v, 0, 0};
    FByteswapper(o, dir);
    REQUIRE(o.v == rv && o.in == !dir && o.out == dir, "direction-aware swap: in=" << o.in << " out=" << o.out << " asked out=" << dir);
    break;
  }
  case 2: {
    Both o;
    o.v = v, o.in = o.out = 0;
    FByteswapper(o, dir);
    REQUIRE(o.v == rv && o.in == !dir && o.out == dir, "inherited swap: in=" << o.in << " out=" << o.out << " asked out=" << dir);
    break;
  }
  case 3: {
    OwnDir o[5];
    for (auto &e : o)
      e = {v + (uint32)n++, 0, 0};
    FByteswapper(o, dir);
    n = 0;
    for (auto &e : o)
      REQUIRE(e.v == __builtin_bswap32(v + (uint32)n++) && e.in == !dir && e.out == dir, "array of own: in=" << e.in << " out=" << e.out << " asked out=" << dir);
    break;
  }
  case 4: {
    Own o[4];
    for (auto &e : o)
      e = {v, 0, 7};
    FByteswapper(o, dir);
    for (auto &e : o)
      REQUIRE(e.v == rv && e.calls == 1 && e.pad == 7, "array of own: calls=" << e.calls);
    break;
  }
  case 6: return ownArrs<OwnDir>(s, v, dir);
  case 7: return ownArrs<Both>(s, v, dir);
  case 5: { // default direction: in
    OwnDir o{v, 0, 0};
    FByteswapper(o);
    REQUIRE(o.in == 1 && o.out == 0, "default direction");
    break;
  }
  default: { // through a swapped stream: writing asks out, reading asks in
    std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
    OwnDir o{v, 0, 0}, r{0, 0, 0};
    {
      BinWritterRef w(ss);
      w.SwapEndian(true);
      w.Write(o);
    }
    OwnDir stored;
    string b = ss.str();
    REQUIRE(b.size() == sizeof o, "stored size");
    memcpy(&stored, b.data(), sizeof o);
    REQUIRE(stored.v == rv && stored.out == 1 && stored.in == 0, "written form: out=" << stored.out << " in=" << stored.in);
    REQUIRE(o.v == v && o.in == 0 && o.out == 0, "the written object changed");
    BinReaderRef rd(ss);
    rd.SwapEndian(true);
    rd.Read(r);
    REQUIRE(r.v == v && r.out == 1 && r.in == 1, "read form: out=" << r.out << " in=" << r.in);
  }
  }
}
