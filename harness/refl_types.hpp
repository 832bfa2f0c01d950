// Corpus of reflected classes and enumerations shared by C07-C12, together with
// an independent (C++ trait based) description of them: the checks never learn
// offsets, kinds or values from the reflection tables they are testing.
#pragma once
#include "datas/bitfield.hpp"
#include "datas/endian.hpp"
#include "datas/flags.hpp"
#include "datas/reflector.hpp"
#include "datas/refl_array.hpp"
#include "datas/vectors_simd.hpp"
#include "pbt.hpp"
#include <array>
#include <cmath>
#include <memory>

// ---------------------------------------------------------------- enumerations
REFLECTOR_CREATE(En8, ENUM, 2, CLASS, 8, A0, A1, A5 = 5, A6, AHex = 0x10, Ahex = 0xfe, ALast)
REFLECTOR_CREATE(En16, ENUM, 2, CLASS, 16, B0 = 7, B1 = 16586, B2 = 0x8bcd, B3, B4 = 1)
REFLECTOR_CREATE(En32, ENUM, 2, CLASS, 32, C0, C1, C2 = 0xfffffffe, C3, C4 = 100000)
REFLECTOR_CREATE(En64, ENUM, 2, CLASS, 64, D0, D1 = 0x123456789abcdef0, D2, D3 = 0xffffffffffffffff, D4 = 9000000000000000000)
REFLECTOR_CREATE(EnPlain, ENUM, 0, EnPlain_X, EnPlain_Y, EnPlain_XY, EnPlain_Z = 40)
REFLECTOR_CREATE(EnNeg, ENUM, 1, CLASS, N0 = -3, N1, N2, N3, N4, Nmin = -2147483647, Nm2, N9 = 9)
REFLECTOR_CREATE(EnNegHex, ENUM, 1, CLASS, H0 = -0x10, H1, H2 = 0X1F, H3 = 010, H4)
REFLECTOR_CREATE(EnOne, ENUM, 2, CLASS, 8, Only)
// members used as flag positions
REFLECTOR_CREATE(Fl8, ENUM, 2, CLASS, 8, Xa, Xb, Xc = 3, Xd, Xh = 7)
REFLECTOR_CREATE(Fl16, ENUM, 0, Fl16_a, Fl16_b, Fl16_ab, Fl16_p = 15)
REFLECTOR_CREATE(Fl32, ENUM, 2, CLASS, 32, Ya, Yb = 15, Yc, Yd = 30, Ye)
REFLECTOR_CREATE(Fl64, ENUM, 2, CLASS, 64, Za, G1, G2, G3, G4, G5, G6, G7, G8, G9, G10, G11, G12, G13, G14, G15, G16, G17, G18, G19, G20, G21, G22, G23, G24, G25, G26, G27, G28, G29, G30, Zb = 31, Zc, G33, G34, G35, G36, G37, G38, G39, G40, G41, G42, G43, G44, Zd = 62, Ze)
REFLECTOR_CREATE(EnName, ENUM, 2, CLASS, 16, AnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerateA, AnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerateB, AnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate, AnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate_AndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOn1, AnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate_AndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOn2, AnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate_AndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOn1, AnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate_AndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOn2, Q)
REFLECTOR_CREATE(FlAll, ENUM, 2, CLASS, 64, S0, S1, S2, S3, S4, S5, S6, S7, S8, S9, S10, S11, S12, S13, S14, S15, S16, S17, S18, S19, S20, S21, S22, S23, S24, S25, S26, S27, S28, S29, S30, S31, S32, S33, S34, S35, S36, S37, S38, S39, S40, S41, S42, S43, S44, S45, S46, S47, S48, S49, S50, S51, S52, S53, S54, S55, S56, S57, S58, S59, S60, S61, S62, S63)
REFLECTOR_CREATE(FlName, ENUM, 2, CLASS, 8, FAnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerateA, FAnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerateB, FAnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate, FAnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate_AndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOn1, FAnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate_AndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOn2, FAnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate_AndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOn1, FAnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate_AndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOn2, FQ)

// ------------------------------------------------------------------- bit fields
using m8_0 = BitMemberDecl<0, 3>;
using m8_1 = BitMemberDecl<1, 1>;
using m8_2 = BitMemberDecl<2, 4>;
using Bf8 = BitFieldType<uint8, m8_0, m8_1, m8_2>;
REFLECTOR_CREATE(Bf8, BITFIELD, 1, VARNAMES, m8_0, m8_1, m8_2)
using m16_0 = BitMemberDecl<0, 2>;
using m16_1 = BitMemberDecl<1, 7>;
using m16_2 = BitMemberDecl<2, 3>;
using Bf16 = BitFieldType<uint16, m16_0, m16_1, m16_2>; // 4 bits unclaimed
REFLECTOR_CREATE(Bf16, BITFIELD, 1, VARNAMES, m16_0, m16_1, m16_2)
using m32_0 = BitMemberDecl<0, 1>;
using m32_1 = BitMemberDecl<1, 30>;
using m32_2 = BitMemberDecl<2, 1>;
using Bf32 = BitFieldType<uint32, m32_0, m32_1, m32_2>;
REFLECTOR_CREATE(Bf32, BITFIELD, 1, VARNAMES, m32_0, m32_1, m32_2)
using m64_0 = BitMemberDecl<0, 5>;
using m64_1 = BitMemberDecl<1, 33>;
using m64_2 = BitMemberDecl<2, 22>;
using m64_3 = BitMemberDecl<3, 4>;
using Bf64 = BitFieldType<uint64, m64_0, m64_1, m64_2, m64_3>;
REFLECTOR_CREATE(Bf64, BITFIELD, 1, EXTENDED, (A, m64_0, "five"), (AD, m64_1, "wide", "width%bits"), (, m64_2), (D, m64_3, "nibble%"))
using w32_0 = BitMemberDecl<0, 31>;
using w32_1 = BitMemberDecl<1, 1>;
using Bw32 = BitFieldType<uint32, w32_0, w32_1>;
REFLECTOR_CREATE(Bw32, BITFIELD, 1, VARNAMES, w32_0, w32_1)
using w64_0 = BitMemberDecl<0, 1>;
using w64_1 = BitMemberDecl<1, 63>;
using Bw64 = BitFieldType<uint64, w64_0, w64_1>;
REFLECTOR_CREATE(Bw64, BITFIELD, 1, VARNAMES, w64_0, w64_1)
using full64 = BitMemberDecl<0, 64>;
using Bx64 = BitFieldType<uint64, full64>;
REFLECTOR_CREATE(Bx64, BITFIELD, 1, VARNAMES, full64)
using one16 = BitMemberDecl<0, 11>;
using Bx16 = BitFieldType<uint16, one16>;
REFLECTOR_CREATE(Bx16, BITFIELD, 1, VARNAMES, one16)
// signed ones
using s8_0 = BitMemberDecl<0, 3>;
using s8_1 = BitMemberDecl<1, 1>;
using s8_2 = BitMemberDecl<2, 4>;
using Bs8 = BitFieldType<int8, s8_0, s8_1, s8_2>;
REFLECTOR_CREATE(Bs8, BITFIELD, 1, VARNAMES, s8_0, s8_1, s8_2)
using s32_0 = BitMemberDecl<0, 2>;
using s32_1 = BitMemberDecl<1, 17>;
using s32_2 = BitMemberDecl<2, 9>;
using Bs32 = BitFieldType<int32, s32_0, s32_1, s32_2>; // 4 bits unclaimed
REFLECTOR_CREATE(Bs32, BITFIELD, 1, VARNAMES, s32_0, s32_1, s32_2)
using s64_0 = BitMemberDecl<0, 23>;
using s64_1 = BitMemberDecl<1, 33>;
using s64_2 = BitMemberDecl<2, 8>;
using Bs64 = BitFieldType<int64, s64_0, s64_1, s64_2>;
REFLECTOR_CREATE(Bs64, BITFIELD, 1, EXTENDED, (A, s64_0, "signedOne"), (, s64_1), (, s64_2))
using sfull64 = BitMemberDecl<0, 64>;
using Bsx64 = BitFieldType<int64, sfull64>;
REFLECTOR_CREATE(Bsx64, BITFIELD, 1, VARNAMES, sfull64)

// ---------------------------------------------------------------------- classes
struct Leaf {
  int32 data0;
  float data1;
  void ReflectorTag();
};
REFLECTOR_CREATE(Leaf, 1, VARNAMES, data0, data1)

struct Leaf2 {
  uint8 k;
  int16 v[3];
  Bf16 bits;
  En8 e;
  void ReflectorTag();
};
REFLECTOR_CREATE(Leaf2, 1, VARNAMES, k, v, bits, e)

struct Mid {
  double d;
  Leaf2 l2;
  Leaf l[2];
  es::Flags<Fl16, uint16> f;
  bool last;
  void ReflectorTag();
};
REFLECTOR_CREATE(Mid, 1, VARNAMES, d, l2, l, f, last)

// elements close to the largest size the tables hold
struct Wide {
  double d[29];
  En8 e;
  Leaf leaf;
  void ReflectorTag();
};
REFLECTOR_CREATE(Wide, 1, VARNAMES, d, e, leaf)

// element numbers above one byte
struct Long {
  uint8 head;
  Leaf many[300];
  uint16 nums[700];
  Bf16 bits[260];
  es::Flags<Fl16, uint16> fl[257];
  std::array<Vector2, 258> v2;
  int32 tail;
  void ReflectorTag();
};
REFLECTOR_CREATE(Long, 1, VARNAMES, head, many, nums, bits, fl, v2, tail)

// offsets close to the largest the tables hold
struct Far {
  uint8 head;
  uint16 nums[20000];
  Leaf first;
  std::array<Wide, 97> wide;
  int16 mid[5];
  En16 e;
  Bf32 bits;
  Leaf leaf;
  es::Flags<Fl16, uint16> fl[2];
  Vector v;
  double last;
  void ReflectorTag();
};
REFLECTOR_CREATE(Far, 1, VARNAMES, last, head, nums, first, wide, mid, e, bits, leaf, fl, v)

// arrays behind the 64th kilobyte
struct HugeN {
  uint8 head;
  int32 nums[17000];
  void ReflectorTag();
};
REFLECTOR_CREATE(HugeN, 1, VARNAMES, head, nums)
struct HugeV {
  int16 head;
  std::array<Vector, 5600> v;
  void ReflectorTag();
};
REFLECTOR_CREATE(HugeV, 1, VARNAMES, head, v)
struct HugeW {
  Wide w[280];
  void ReflectorTag();
};
REFLECTOR_CREATE(HugeW, 1, VARNAMES, w)

// long enumerator names, as many flags as fit
struct Names {
  EnName e;
  es::Flags<FlName, uint8> fn;
  es::Flags<FlAll, uint64> all;
  EnName es[2];
  void ReflectorTag();
};
REFLECTOR_CREATE(Names, 1, VARNAMES, e, fn, all, es)

struct PodA {
  bool b0;
  int8 i8;
  uint8 u8;
  int16 i16;
  uint16 u16;
  int32 i32;
  uint32 u32;
  int64 i64;
  uint64 u64;
  float f32;
  double f64;
  es::Flags<Fl8, uint8> fl8;
  es::Flags<Fl16, uint16> fl16;
  es::Flags<Fl32> fl32;
  es::Flags<Fl64> fl64;
  En8 e8;
  En16 e16;
  En32 e32;
  En64 e64;
  EnPlain ep;
  EnNeg en;
  EnNegHex enh;
  Vector v3;
  Vector2 v2;
  Vector4 v4;
  Vector4A16 v4a;
  IVector2 iv2;
  USVector usv;
  CVector4 cv4;
  EnOne one;
  void ReflectorTag();
};
REFLECTOR_CREATE(PodA, 1, VARNAMES, b0, i8, u8, i16, u16, i32, u32, i64, u64,
                 f32, f64, fl8, fl16, fl32, fl64, e8, e16, e32, e64, ep, en,
                 enh, v3, v2, v4, v4a, iv2, usv, cv4, one)

struct PodB {
  uint8 pre;
  bool b0[4];
  int8 i8[2];
  uint8 u8[4];
  int16 i16[2];
  uint16 u16[5];
  int32 i32[2];
  uint32 u32[3];
  int64 i64[1];
  uint64 u64[4];
  float f32[2];
  double f64[3];
  es::Flags<Fl8, uint8> fl8[2];
  es::Flags<Fl16, uint16> fl16[4];
  es::Flags<Fl64> fl64[2];
  En8 e8[3];
  En16 e16[2];
  En64 e64[2];
  EnNeg en[2];
  Vector v3[2];
  Vector2 v2[4];
  Vector4 v4[2];
  Vector4A16 v4a[2];
  std::array<int16, 6> ai16;
  std::array<Vector2, 2> av2;
  UCVector ucv[3];
  IVector4 iv4[2];
  bool tail[3];
  void ReflectorTag();
};
// declared in another order than laid out
REFLECTOR_CREATE(PodB, 1, VARNAMES, tail, pre, b0, i8, u8, i16, u16, i32, u32, i64,
                 u64, f32, f64, fl8, fl16, fl64, e8, e16, e64, en, v3, v2, v4,
                 v4a, ai16, av2, iv4, ucv)

struct Nest {
  uint8 head;
  Leaf one;
  Leaf many[3];
  std::array<Leaf2, 2> arr;
  Mid mid;
  Mid mids[2];
  Bf8 b8;
  Bf8 b8s[3];
  Bf16 b16;
  Bf32 b32;
  Bw32 w32;
  Bf64 b64;
  Bf64 b64s[2];
  Bw64 w64;
  Bx64 x64;
  Bx16 x16[2];
  Bs8 s8;
  Bs32 s32[2];
  Bs64 s64;
  Bsx64 sx64;
  uint16 tail;
  Bf8 b8last;
  void ReflectorTag();
};
REFLECTOR_CREATE(Nest, 1, VARNAMES, head, one, many, arr, mid, mids, b8, b8s, b16,
                 b32, w32, b64, b64s, w64, x64, x16, s8, s32, s64, sx64, tail, b8last)

struct Ext {
  float pitch;
  uint32 unlisted; // not reflected
  int32 volume;
  uint64 seed;
  En16 kind;
  Leaf leaf;
  uint8 plain[4];
  es::Flags<Fl8, uint8> fl;
  void ReflectorTag();
};
REFLECTOR_CREATE(Ext, 1, EXTENDED, (AD, pitch, "Pitch Shift", "Shift by % semitones"),
                 (A, volume, "vol"), (D, seed, "Random seed"), (, kind),
                 (AD, leaf, "a leaf", "%"), (D, plain, "prefix %"), (A, fl, "switches"))

template <class T, size_t N> struct Tmpl {
  T first;
  T rest[N];
  uint16 mark;
  void ReflectorTag();
};
using TmplI = Tmpl<int16, 3>;
REFLECTOR_CREATE((Tmpl<int16, 3>), 2, TEMPLATE, VARNAMES, first, rest, mark)
using TmplF = Tmpl<float, 2>;
REFLECTOR_CREATE((Tmpl<float, 2>), 2, EXTENDED, TEMPLATE, (A, first, "erste"), (, rest), (D, mark, "m%k"))

struct NoNames {
  uint32 item00;
  int32 item01;
  uint64 item02;
  int16 item03[2];
  Leaf item04[2];
  Vector item05;
  es::Flags<Fl8, uint8> item06[2];
  Bf8 item07;
  Vector2 item08[2];
  void ReflectorTag();
};
REFLECTOR_CREATE(NoNames, 0, item00, item01, item02, item03, item04, item05, item06, item07, item08)

struct Str {
  std::string s0;
  int32 guard0;
  std::string s1;
  std::string arr[3];
  Leaf leaf;
  Bf8 bits;
  void ReflectorTag();
};
REFLECTOR_CREATE(Str, 1, VARNAMES, s0, guard0, s1, arr, leaf, bits)

inline void registerCorpus() {
  static RegisterReflectedTypes<En8, En16, En32, En64, EnPlain, EnNeg, EnNegHex,
                                EnOne, EnName, FlAll, FlName, Fl8, Fl16, Fl32, Fl64, Leaf, Leaf2, Mid, Wide,
                                Bf8, Bf16, Bf32, Bf64, Bw32, Bw64, Bx64, Bx16, Bs8, Bs32, Bs64, Bsx64>
      reg;
  (void)reg;
}

// ------------------------------------------------------- independent description
enum Kind { K_BOOL, K_INT, K_UINT, K_FLOAT, K_ENUM, K_FLAGS, K_STRING, K_VECTOR, K_ARRAY, K_CLASS };
static const char *const kindNames[] = {"bool", "int", "uint", "float", "enum", "flags", "string", "vector", "array", "class"};

struct EnumModel {
  const char *name;
  size_t size;
  std::vector<std::pair<std::string, uint64_t>> items; // compiler-evaluated
};
struct ClassModel;
struct Desc {
  Kind kind;
  size_t size;
  size_t count = 0;             // vector, array
  const Desc *sub = nullptr;    // vector, array
  const EnumModel *en = nullptr; // enum, flags
  const ClassModel *cls = nullptr;
};
struct MemberModel {
  const char *name;
  size_t off;
  const Desc *d;
  const char *alias = nullptr;
  const char *desc1 = nullptr, *desc2 = nullptr;
};
struct BitModel {
  const char *name;
  size_t pos, width;
  const char *alias = nullptr;
};
struct ClassModel {
  const char *name;
  size_t size, align;
  std::vector<MemberModel> members;
  std::vector<BitModel> bits; // not empty: bit field
  bool sgn = false;           // of signed numbers
  const reflectorStatic *stat;
  bool hasNames = true, hasExt = false;
  bool hasStrings = false;
  size_t n() const { return bits.empty() ? members.size() : bits.size(); }
  const char *mname(size_t i) const { return bits.empty() ? members[i].name : bits[i].name; }
};

template <class E> const EnumModel &enumModel();
#define EV(e, x) {#x, (uint64_t)e::x}
template <> inline const EnumModel &enumModel<En8>() { static EnumModel m{"En8", 1, {EV(En8, A0), EV(En8, A1), EV(En8, A5), EV(En8, A6), EV(En8, AHex), EV(En8, Ahex), EV(En8, ALast)}}; return m; }
template <> inline const EnumModel &enumModel<En16>() { static EnumModel m{"En16", 2, {EV(En16, B0), EV(En16, B1), EV(En16, B2), EV(En16, B3), EV(En16, B4)}}; return m; }
template <> inline const EnumModel &enumModel<En32>() { static EnumModel m{"En32", 4, {EV(En32, C0), EV(En32, C1), EV(En32, C2), EV(En32, C3), EV(En32, C4)}}; return m; }
template <> inline const EnumModel &enumModel<En64>() { static EnumModel m{"En64", 8, {EV(En64, D0), EV(En64, D1), EV(En64, D2), EV(En64, D3), EV(En64, D4)}}; return m; }
template <> inline const EnumModel &enumModel<EnPlain>() { static EnumModel m{"EnPlain", sizeof(EnPlain), {{"EnPlain_X", EnPlain_X}, {"EnPlain_Y", EnPlain_Y}, {"EnPlain_XY", EnPlain_XY}, {"EnPlain_Z", EnPlain_Z}}}; return m; }
template <> inline const EnumModel &enumModel<EnNeg>() { static EnumModel m{"EnNeg", 4, {EV(EnNeg, N0), EV(EnNeg, N1), EV(EnNeg, N2), EV(EnNeg, N3), EV(EnNeg, N4), EV(EnNeg, Nmin), EV(EnNeg, Nm2), EV(EnNeg, N9)}}; return m; }
template <> inline const EnumModel &enumModel<EnNegHex>() { static EnumModel m{"EnNegHex", 4, {EV(EnNegHex, H0), EV(EnNegHex, H1), EV(EnNegHex, H2), EV(EnNegHex, H3), EV(EnNegHex, H4)}}; return m; }
template <> inline const EnumModel &enumModel<EnOne>() { static EnumModel m{"EnOne", 1, {EV(EnOne, Only)}}; return m; }
template <> inline const EnumModel &enumModel<Fl8>() { static EnumModel m{"Fl8", 1, {EV(Fl8, Xa), EV(Fl8, Xb), EV(Fl8, Xc), EV(Fl8, Xd), EV(Fl8, Xh)}}; return m; }
template <> inline const EnumModel &enumModel<Fl16>() { static EnumModel m{"Fl16", sizeof(Fl16), {{"Fl16_a", Fl16_a}, {"Fl16_b", Fl16_b}, {"Fl16_ab", Fl16_ab}, {"Fl16_p", Fl16_p}}}; return m; }
template <> inline const EnumModel &enumModel<Fl32>() { static EnumModel m{"Fl32", 4, {EV(Fl32, Ya), EV(Fl32, Yb), EV(Fl32, Yc), EV(Fl32, Yd), EV(Fl32, Ye)}}; return m; }
template <> inline const EnumModel &enumModel<Fl64>() { static EnumModel m{"Fl64", 8, {EV(Fl64, Za), EV(Fl64, G1), EV(Fl64, G2), EV(Fl64, G3), EV(Fl64, G4), EV(Fl64, G5), EV(Fl64, G6), EV(Fl64, G7), EV(Fl64, G8), EV(Fl64, G9), EV(Fl64, G10), EV(Fl64, G11), EV(Fl64, G12), EV(Fl64, G13), EV(Fl64, G14), EV(Fl64, G15), EV(Fl64, G16), EV(Fl64, G17), EV(Fl64, G18), EV(Fl64, G19), EV(Fl64, G20), EV(Fl64, G21), EV(Fl64, G22), EV(Fl64, G23), EV(Fl64, G24), EV(Fl64, G25), EV(Fl64, G26), EV(Fl64, G27), EV(Fl64, G28), EV(Fl64, G29), EV(Fl64, G30), EV(Fl64, Zb), EV(Fl64, Zc), EV(Fl64, G33), EV(Fl64, G34), EV(Fl64, G35), EV(Fl64, G36), EV(Fl64, G37), EV(Fl64, G38), EV(Fl64, G39), EV(Fl64, G40), EV(Fl64, G41), EV(Fl64, G42), EV(Fl64, G43), EV(Fl64, G44), EV(Fl64, Zd), EV(Fl64, Ze)}}; return m; }
template <> inline const EnumModel &enumModel<EnName>() { static EnumModel m{"EnName", 2, {EV(EnName, AnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerateA), EV(EnName, AnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerateB), EV(EnName, AnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate), EV(EnName, AnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate_AndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOn1), EV(EnName, AnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate_AndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOn2), EV(EnName, AnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate_AndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOn1), EV(EnName, AnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate_AndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOn2), EV(EnName, Q)}}; return m; }
template <> inline const EnumModel &enumModel<FlName>() { static EnumModel m{"FlName", 1, {EV(FlName, FAnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerateA), EV(FlName, FAnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerateB), EV(FlName, FAnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate), EV(FlName, FAnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate_AndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOn1), EV(FlName, FAnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate_AndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOn2), EV(FlName, FAnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate_AndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOn1), EV(FlName, FAnEnumeratorNameThatIsLongerThanMostPeopleWouldEverWriteByHandButThatToolsGenerate_AndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOnAndGoesOn2), EV(FlName, FQ)}}; return m; }
template <> inline const EnumModel &enumModel<FlAll>() { static EnumModel m{"FlAll", 8, {EV(FlAll, S0), EV(FlAll, S1), EV(FlAll, S2), EV(FlAll, S3), EV(FlAll, S4), EV(FlAll, S5), EV(FlAll, S6), EV(FlAll, S7), EV(FlAll, S8), EV(FlAll, S9), EV(FlAll, S10), EV(FlAll, S11), EV(FlAll, S12), EV(FlAll, S13), EV(FlAll, S14), EV(FlAll, S15), EV(FlAll, S16), EV(FlAll, S17), EV(FlAll, S18), EV(FlAll, S19), EV(FlAll, S20), EV(FlAll, S21), EV(FlAll, S22), EV(FlAll, S23), EV(FlAll, S24), EV(FlAll, S25), EV(FlAll, S26), EV(FlAll, S27), EV(FlAll, S28), EV(FlAll, S29), EV(FlAll, S30), EV(FlAll, S31), EV(FlAll, S32), EV(FlAll, S33), EV(FlAll, S34), EV(FlAll, S35), EV(FlAll, S36), EV(FlAll, S37), EV(FlAll, S38), EV(FlAll, S39), EV(FlAll, S40), EV(FlAll, S41), EV(FlAll, S42), EV(FlAll, S43), EV(FlAll, S44), EV(FlAll, S45), EV(FlAll, S46), EV(FlAll, S47), EV(FlAll, S48), EV(FlAll, S49), EV(FlAll, S50), EV(FlAll, S51), EV(FlAll, S52), EV(FlAll, S53), EV(FlAll, S54), EV(FlAll, S55), EV(FlAll, S56), EV(FlAll, S57), EV(FlAll, S58), EV(FlAll, S59), EV(FlAll, S60), EV(FlAll, S61), EV(FlAll, S62), EV(FlAll, S63)}}; return m; }

template <class C> const ClassModel &classModel();

template <class T, class = void> struct DescOf;
template <class T> const Desc *descOf() {
  static const Desc d = DescOf<T>::make();
  return &d;
}
template <> struct DescOf<bool> { static Desc make() { return {K_BOOL, 1}; } };
template <> struct DescOf<std::string> { static Desc make() { return {K_STRING, sizeof(std::string)}; } };
template <class T> struct DescOf<T, typename std::enable_if<std::is_floating_point<T>::value>::type> { static Desc make() { return {K_FLOAT, sizeof(T)}; } };
template <class T> struct DescOf<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
  static Desc make() { return {std::is_signed<T>::value ? K_INT : K_UINT, sizeof(T)}; }
};
template <class T> struct DescOf<T, typename std::enable_if<std::is_enum<T>::value>::type> {
  static Desc make() { Desc d{K_ENUM, sizeof(T)}; d.en = &enumModel<T>(); return d; }
};
template <class E, class S> struct DescOf<es::Flags<E, S>> {
  static Desc make() { Desc d{K_FLAGS, sizeof(S)}; d.en = &enumModel<E>(); return d; }
};
template <class T> struct DescOf<t_Vector2<T>> { static Desc make() { Desc d{K_VECTOR, sizeof(t_Vector2<T>)}; d.count = 2; d.sub = descOf<T>(); return d; } };
template <class T> struct DescOf<t_Vector<T>> { static Desc make() { Desc d{K_VECTOR, sizeof(t_Vector<T>)}; d.count = 3; d.sub = descOf<T>(); return d; } };
template <class T> struct DescOf<t_Vector4_<T>> { static Desc make() { Desc d{K_VECTOR, sizeof(t_Vector4_<T>)}; d.count = 4; d.sub = descOf<typename T::value_type>(); return d; } };
template <class T, size_t N> struct DescOf<T[N]> { static Desc make() { Desc d{K_ARRAY, sizeof(T) * N}; d.count = N; d.sub = descOf<T>(); return d; } };
template <class T, size_t N> struct DescOf<std::array<T, N>> { static Desc make() { Desc d{K_ARRAY, sizeof(T) * N}; d.count = N; d.sub = descOf<T>(); return d; } };
template <class T, class... M> struct DescOf<BitFieldType<T, M...>> { static Desc make() { Desc d{K_CLASS, sizeof(T)}; d.cls = &classModel<BitFieldType<T, M...>>(); return d; } };
template <class T> struct DescOf<T, typename std::enable_if<refl_is_reflected_v_<T>>::type> { static Desc make() { Desc d{K_CLASS, sizeof(T)}; d.cls = &classModel<T>(); return d; } };

template <class C> ClassModel mkClass(const char *name, std::vector<MemberModel> mm) {
  registerCorpus();
  ClassModel c;
  c.name = name;
  c.size = sizeof(C);
  c.align = alignof(C);
  c.members = mm;
  c.stat = GetReflectedClass<C>();
  return c;
}
template <class C> ClassModel mkBits(const char *name, std::vector<BitModel> mm) {
  ClassModel c = mkClass<C>(name, {});
  c.bits = mm;
  c.sgn = std::is_signed<typename C::value_type>::value;
  return c;
}
#define M(x) MemberModel{#x, offsetof(CC, x), descOf<decltype(CC::x)>()}
#define MX(x, ...) MemberModel{#x, offsetof(CC, x), descOf<decltype(CC::x)>(), __VA_ARGS__}
template <> inline const ClassModel &classModel<Bf8>() { static ClassModel m = mkBits<Bf8>("Bf8", {{"m8_0", 0, 3}, {"m8_1", 3, 1}, {"m8_2", 4, 4}}); return m; }
template <> inline const ClassModel &classModel<Bf16>() { static ClassModel m = mkBits<Bf16>("Bf16", {{"m16_0", 0, 2}, {"m16_1", 2, 7}, {"m16_2", 9, 3}}); return m; }
template <> inline const ClassModel &classModel<Bf32>() { static ClassModel m = mkBits<Bf32>("Bf32", {{"m32_0", 0, 1}, {"m32_1", 1, 30}, {"m32_2", 31, 1}}); return m; }
template <> inline const ClassModel &classModel<Bf64>() { static ClassModel m = [] { ClassModel m = mkBits<Bf64>("Bf64", {{"m64_0", 0, 5, "five"}, {"m64_1", 5, 33, "wide"}, {"m64_2", 38, 22}, {"m64_3", 60, 4}}); m.hasExt = true; return m; }(); return m; }
template <> inline const ClassModel &classModel<Bw32>() { static ClassModel m = mkBits<Bw32>("Bw32", {{"w32_0", 0, 31}, {"w32_1", 31, 1}}); return m; }
template <> inline const ClassModel &classModel<Bx64>() { static ClassModel m = mkBits<Bx64>("Bx64", {{"full64", 0, 64}}); return m; }
template <> inline const ClassModel &classModel<Bx16>() { static ClassModel m = mkBits<Bx16>("Bx16", {{"one16", 0, 11}}); return m; }
template <> inline const ClassModel &classModel<Bs8>() { static ClassModel m = mkBits<Bs8>("Bs8", {{"s8_0", 0, 3}, {"s8_1", 3, 1}, {"s8_2", 4, 4}}); return m; }
template <> inline const ClassModel &classModel<Bs32>() { static ClassModel m = mkBits<Bs32>("Bs32", {{"s32_0", 0, 2}, {"s32_1", 2, 17}, {"s32_2", 19, 9}}); return m; }
template <> inline const ClassModel &classModel<Bs64>() { static ClassModel m = [] { ClassModel m = mkBits<Bs64>("Bs64", {{"s64_0", 0, 23, "signedOne"}, {"s64_1", 23, 33}, {"s64_2", 56, 8}}); m.hasExt = true; return m; }(); return m; }
template <> inline const ClassModel &classModel<Bsx64>() { static ClassModel m = mkBits<Bsx64>("Bsx64", {{"sfull64", 0, 64}}); return m; }
template <> inline const ClassModel &classModel<Bw64>() { static ClassModel m = mkBits<Bw64>("Bw64", {{"w64_0", 0, 1}, {"w64_1", 1, 63}}); return m; }
template <> inline const ClassModel &classModel<Leaf>() { using CC = Leaf; static ClassModel m = mkClass<CC>("Leaf", {M(data0), M(data1)}); return m; }
template <> inline const ClassModel &classModel<Leaf2>() { using CC = Leaf2; static ClassModel m = mkClass<CC>("Leaf2", {M(k), M(v), M(bits), M(e)}); return m; }
template <> inline const ClassModel &classModel<Mid>() { using CC = Mid; static ClassModel m = mkClass<CC>("Mid", {M(d), M(l2), M(l), M(f), M(last)}); return m; }
template <> inline const ClassModel &classModel<Wide>() { using CC = Wide; static ClassModel m = mkClass<CC>("Wide", {M(d), M(e), M(leaf)}); return m; }
template <> inline const ClassModel &classModel<Far>() { using CC = Far; static ClassModel m = mkClass<CC>("Far", {M(last), M(head), M(nums), M(first), M(wide), M(mid), M(e), M(bits), M(leaf), M(fl), M(v)}); return m; }
template <> inline const ClassModel &classModel<Long>() { using CC = Long; static ClassModel m = mkClass<CC>("Long", {M(head), M(many), M(nums), M(bits), M(fl), M(v2), M(tail)}); return m; }
template <> inline const ClassModel &classModel<HugeN>() { using CC = HugeN; static ClassModel m = mkClass<CC>("HugeN", {M(head), M(nums)}); return m; }
template <> inline const ClassModel &classModel<HugeV>() { using CC = HugeV; static ClassModel m = mkClass<CC>("HugeV", {M(head), M(v)}); return m; }
template <> inline const ClassModel &classModel<HugeW>() { using CC = HugeW; static ClassModel m = mkClass<CC>("HugeW", {M(w)}); return m; }
template <> inline const ClassModel &classModel<Names>() { using CC = Names; static ClassModel m = mkClass<CC>("Names", {M(e), M(fn), M(all), M(es)}); return m; }
template <> inline const ClassModel &classModel<PodA>() { using CC = PodA; static ClassModel m = mkClass<CC>("PodA", {M(b0), M(i8), M(u8), M(i16), M(u16), M(i32), M(u32), M(i64), M(u64), M(f32), M(f64), M(fl8), M(fl16), M(fl32), M(fl64), M(e8), M(e16), M(e32), M(e64), M(ep), M(en), M(enh), M(v3), M(v2), M(v4), M(v4a), M(iv2), M(usv), M(cv4), M(one)}); return m; }
template <> inline const ClassModel &classModel<PodB>() { using CC = PodB; static ClassModel m = mkClass<CC>("PodB", {M(tail), M(pre), M(b0), M(i8), M(u8), M(i16), M(u16), M(i32), M(u32), M(i64), M(u64), M(f32), M(f64), M(fl8), M(fl16), M(fl64), M(e8), M(e16), M(e64), M(en), M(v3), M(v2), M(v4), M(v4a), M(ai16), M(av2), M(iv4), M(ucv)}); return m; }
template <> inline const ClassModel &classModel<Nest>() { using CC = Nest; static ClassModel m = mkClass<CC>("Nest", {M(head), M(one), M(many), M(arr), M(mid), M(mids), M(b8), M(b8s), M(b16), M(b32), M(w32), M(b64), M(b64s), M(w64), M(x64), M(x16), M(s8), M(s32), M(s64), M(sx64), M(tail), M(b8last)}); return m; }
template <> inline const ClassModel &classModel<Ext>() {
  using CC = Ext;
  static ClassModel m = [] {
    ClassModel m = mkClass<CC>("Ext", {MX(pitch, "Pitch Shift", "Shift by ", " semitones"), MX(volume, "vol"), MX(seed, nullptr, "Random seed", ""), M(kind), MX(leaf, "a leaf", "", ""), MX(plain, nullptr, "prefix ", ""), MX(fl, "switches")});
    m.hasExt = true;
    return m;
  }();
  return m;
}
template <> inline const ClassModel &classModel<TmplI>() { using CC = TmplI; static ClassModel m = mkClass<CC>("Tmpl<int16, 3>", {M(first), M(rest), M(mark)}); return m; }
template <> inline const ClassModel &classModel<TmplF>() {
  using CC = TmplF;
  static ClassModel m = [] {
    ClassModel m = mkClass<CC>("Tmpl<float, 2>", {MX(first, "erste"), M(rest), MX(mark, nullptr, "m", "k")});
    m.hasExt = true;
    return m;
  }();
  return m;
}
template <> inline const ClassModel &classModel<NoNames>() {
  using CC = NoNames;
  static ClassModel m = [] {
    ClassModel m = mkClass<CC>("NoNames", {M(item00), M(item01), M(item02), M(item03), M(item04), M(item05), M(item06), M(item07), M(item08)});
    m.hasNames = false;
    return m;
  }();
  return m;
}
template <> inline const ClassModel &classModel<Str>() {
  using CC = Str;
  static ClassModel m = [] {
    ClassModel m = mkClass<CC>("Str", {M(s0), M(guard0), M(s1), M(arr), M(leaf), M(bits)});
    m.hasStrings = true;
    return m;
  }();
  return m;
}
#undef M
#undef MX

// all classes that can be placed in plain memory
inline const std::vector<const ClassModel *> &podClasses() {
  static std::vector<const ClassModel *> v{&classModel<PodA>(), &classModel<PodB>(), &classModel<Nest>(), &classModel<Ext>(), &classModel<Mid>(), &classModel<Leaf2>(), &classModel<Leaf>(), &classModel<TmplI>(), &classModel<TmplF>(), &classModel<NoNames>(), &classModel<Names>(), &classModel<Bf8>(), &classModel<Bf16>(), &classModel<Bf32>(), &classModel<Bf64>(), &classModel<Bw32>(), &classModel<Bw64>(), &classModel<Bx64>(), &classModel<Bx16>(), &classModel<Bs8>(), &classModel<Bs32>(), &classModel<Bs64>(), &classModel<Bsx64>()};
  return v;
}

// large ones
inline const std::vector<const ClassModel *> &longClasses() {
  static std::vector<const ClassModel *> v{&classModel<Long>(), &classModel<Far>(), &classModel<Wide>(), &classModel<Wide>(), &classModel<HugeN>(), &classModel<HugeV>(), &classModel<HugeW>()};
  return v;
}

// ----------------------------------------------------------------- object storage
// An object in the middle of a block with canaries right before and behind it.
struct Obj {
  const ClassModel *c;
  std::unique_ptr<char[]> raw;
  char *mem; // 64-aligned start of the canary
  size_t guard = 64;
  Obj(const ClassModel *c_) : c(c_), raw(new char[c_->size + 64 * 3]) {
    mem = raw.get() + (64 - ((uintptr_t)raw.get() & 63));
    memset(mem, 0xA5, c->size + 2 * guard);
    memset(obj(), 0, c->size);
    if (c->hasStrings)
      new (obj()) Str();
  }
  ~Obj() {
    if (raw && c->hasStrings)
      ((Str *)obj())->~Str();
  }
  Obj(Obj &&) = default;
  char *obj() const { return mem + guard; }
  size_t total() const { return c->size + 2 * guard; }
  std::string image() const { return std::string(mem, total()); }
  ReflectedInstance inst() const { return ReflectedInstance(c->stat, obj()); }
};

// ---------------------------------------------------------------- random contents
inline void putU(void *p, uint64_t v, size_t n) { memcpy(p, &v, n); }
inline uint64_t getU(const void *p, size_t n) { uint64_t v = 0; memcpy(&v, p, n); return v; }

// finite, normal or zero; with `text`, a value that decimal text of 6 (13)
// significant digits keeps
inline double genReal(pbt::Src &s, size_t size, bool text) {
  double v;
  switch (s.upto(5)) {
  case 0: v = (double)s.irange(-8, 8); break;
  case 1: v = (double)s.irange(-99999, 99999) / 64.0; break;
  case 2: v = std::ldexp((double)s.irange(-999, 999), (int)s.irange(-100, 100)); break;
  case 3: v = (double)s.irange(-999999, 999999) / 1000.0; break;
  case 4: { // any finite normal pattern
    if (size == 4) {
      uint32_t b = (uint32_t)s.bits(32); float f; memcpy(&f, &b, 4);
      v = f;
    } else {
      uint64_t b = s.bits(64); memcpy(&v, &b, 8);
    }
    break;
  }
  default: v = 0; break;
  }
  if (size == 4) {
    float f = (float)v;
    if (!std::isfinite(f) || (f != 0 && !std::isnormal(f)))
      f = 1.5f;
    if (f == 0) f = 0.f;
    if (text) { char b[64]; snprintf(b, 64, "%.6g", f); float g = strtof(b, nullptr); if (g != 0 && (!std::isnormal(g))) g = -2.25f; f = g; }
    return f;
  }
  if (!std::isfinite(v) || (v != 0 && !std::isnormal(v)))
    v = -0.75;
  if (v == 0) v = 0;
  if (text) { char b[64]; snprintf(b, 64, "%.13g", v); double g = strtod(b, nullptr); if (g != 0 && !std::isnormal(g)) g = 4.5; v = g; }
  return v;
}
inline std::string genStr(pbt::Src &s, int mode) {
  // mode 0: any printable/any byte but zero; 1: text without list syntax
  std::string r;
  size_t n = s.size(40);
  static const std::string tricky = "<>&\"'\n\t ,;{}[]()|%=/\\#!";
  for (size_t i = 0; i < n; i++) {
    uint64_t k = s.upto(9);
    if (mode == 0 && k < 3) r += tricky[s.upto(tricky.size() - 1)];
    else if (mode == 0 && k == 3) r += (char)s.range(0x80, 0xff);
    else if (k < 5) r += ' ';
    else r += (char)('a' + s.upto(25));
  }
  if (!r.empty() && s.chance(1, 150)) { // a long one
    size_t to = s.coin() ? s.range(120, 600) : s.range(65000, 67000), was = r.size();
    r.reserve(to);
    while (r.size() < to) r += r[r.size() - was];
  }
  if (mode == 1) {
    while (!r.empty() && r[0] == ' ') r.erase(0, 1);
    while (!r.empty() && r.back() == ' ') r.pop_back();
    if (r.empty()) r = "x";
  }
  return r;
}
struct FillOpts { bool text = false; bool strayFlags = false; int strMode = 0; bool raw = false; };

inline void fillValue(pbt::Src &s, const Desc &d, char *p, const FillOpts &o, bool inArray = false);
inline void fillClass(pbt::Src &s, const ClassModel &c, char *p, const FillOpts &o) {
  if (!c.bits.empty()) {
    putU(p, s.bits((unsigned)c.size * 8), c.size);
    return;
  }
  for (auto &m : c.members)
    fillValue(s, *m.d, p + m.off, o);
}
inline void fillScalar(pbt::Src &s, const Desc &d, char *p, const FillOpts &o) {
  switch (d.kind) {
  case K_FLOAT: { double v = genReal(s, d.size, o.text); if (d.size == 4) { float f = (float)v; memcpy(p, &f, 4); } else memcpy(p, &v, 8); break; }
  case K_ENUM: putU(p, s.pick(d.en->items).second, d.size); break;
  case K_FLAGS: { uint64_t v = 0; for (auto &i : d.en->items) if (i.second < d.size * 8 && s.coin()) v |= 1ULL << i.second; if (o.strayFlags && s.chance(1, 4)) v |= s.bits((unsigned)d.size * 8); putU(p, v, d.size); break; }
  default: break;
  }
}
inline void fillValue(pbt::Src &s, const Desc &d, char *p, const FillOpts &o, bool inArray) {
  switch (d.kind) {
  case K_BOOL: *p = (char)s.upto(1); break;
  case K_FLOAT: case K_ENUM: case K_FLAGS:
    if (o.raw && s.coin()) { putU(p, s.bits((unsigned)d.size * 8), d.size); break; }
    fillScalar(s, d, p, o);
    break;
  case K_INT: case K_UINT: putU(p, s.bits((unsigned)d.size * 8), d.size); break;
  case K_STRING: *(std::string *)p = genStr(s, inArray && o.text ? 1 : o.strMode); if (o.raw && s.chance(1, 4)) ((std::string *)p)->append(s.bulk(s.upto(300))); break;
  case K_VECTOR: case K_ARRAY:
    if (d.count > 64 && (d.sub->kind == K_INT || d.sub->kind == K_UINT)) { std::string b = s.bulk(d.size); memcpy(p, b.data(), b.size()); break; }
    for (size_t i = 0; i < d.count; i++) fillValue(s, *d.sub, p + i * d.sub->size, o, true); break;
  case K_CLASS: fillClass(s, *d.cls, p, o); break;
  }
}

// which bytes of an object belong to reflected members
inline void memberMask(const ClassModel &c, std::string &mask, size_t at) {
  if (!c.bits.empty()) { for (size_t i = 0; i < c.size; i++) mask[at + i] = 1; return; }
  for (auto &m : c.members) {
    const Desc &d = *m.d;
    if (d.kind == K_CLASS) memberMask(*d.cls, mask, at + m.off);
    else if (d.kind == K_ARRAY && d.sub->kind == K_CLASS)
      for (size_t i = 0; i < d.count; i++) memberMask(*d.sub->cls, mask, at + m.off + i * d.sub->size);
    else for (size_t i = 0; i < d.size; i++) mask[at + m.off + i] = 1;
  }
}
// equality of reflected members only (padding and unlisted members ignored)
inline bool sameClass(const ClassModel &c, const char *a, const char *b, std::string *why);
inline bool sameValue(const Desc &d, const char *a, const char *b, std::string *why) {
  switch (d.kind) {
  case K_STRING:
    if (*(const std::string *)a == *(const std::string *)b) return true;
    if (why) *why = pbt::esc(*(const std::string *)a) + " vs " + pbt::esc(*(const std::string *)b);
    return false;
  case K_VECTOR: case K_ARRAY:
    for (size_t i = 0; i < d.count; i++)
      if (!sameValue(*d.sub, a + i * d.sub->size, b + i * d.sub->size, why)) {
        if (why) *why = "[" + std::to_string(i) + "] " + *why;
        return false;
      }
    return true;
  case K_CLASS: return sameClass(*d.cls, a, b, why);
  default:
    if (!memcmp(a, b, d.size)) return true;
    if (why) *why = pbt::hex(a, d.size) + " vs " + pbt::hex(b, d.size);
    return false;
  }
}
inline bool sameClass(const ClassModel &c, const char *a, const char *b, std::string *why) {
  if (!c.bits.empty()) {
    uint64_t x = getU(a, c.size), y = getU(b, c.size);
    for (auto &m : c.bits) {
      uint64_t mask = ~0ULL >> (64 - m.width);
      if (((x >> m.pos) & mask) != ((y >> m.pos) & mask)) {
        if (why) *why = std::string(m.name) + ": " + std::to_string((x >> m.pos) & mask) + " vs " + std::to_string((y >> m.pos) & mask);
        return false;
      }
    }
    return true;
  }
  for (auto &m : c.members)
    if (!sameValue(*m.d, a + m.off, b + m.off, why)) {
      if (why) *why = std::string(m.name) + "." + *why;
      return false;
    }
  return true;
}
