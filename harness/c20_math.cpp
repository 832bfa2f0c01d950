// C20: vectors against per-component arithmetic, matrices against doubles.
#include "pbt.hpp"
#include <thread>
#include "datas/matrix44.hpp"
#include "datas/vectors_stream.hpp"
#include "datas/vectors_string.hpp"
#include <cfenv>
#include <cmath>
#include <limits>
using pbt::Src;

template <class T> using IfInt = typename std::enable_if<std::is_integral<T>::value, int>::type;
template <class T> using IfFlt = typename std::enable_if<std::is_floating_point<T>::value, int>::type;

// ---------------------------------------------------------------- components
template <class T, IfInt<T> = 0> T comp(Src &s) {
  using L = std::numeric_limits<T>;
  switch (s.upto(5)) {
  case 0: return (T)s.upto(3);
  case 1: return (T)s.irange(-4, 4);
  case 2: return L::max() - (T)s.upto(2);
  case 3: return L::min() + (T)s.upto(2);
  case 4: return (T)((uint64_t)1 << s.upto(sizeof(T) * 8 - 1));
  default: return (T)s.bits(64);
  }
}
template <class T, IfFlt<T> = 0> T comp(Src &s) {
  switch (s.upto(5)) {
  case 0: return (T)s.irange(-3, 3);
  case 1: return (T)s.irange(-1000000, 1000000) / 1024;
  case 2: return (T)ldexp(1 + (double)s.upto(1 << 23) / (1 << 23), (int)s.irange(-60, 60)) * (s.coin() ? 1 : -1);
  case 3: return s.coin() ? (T)-0.0 : (T)0;
  case 4: return 1 + (T)s.irange(-4, 4) * (T)FLT_EPSILON / 2;
  default: return (T)ldexp((double)s.irange(-(1 << 24), 1 << 24), (int)s.irange(-30, 10));
  }
}
template <class T> bool same(T a, T b) { return a == b || (a != a && b != b); }

enum OpKind { Add, Sub, Mul, Div, And, Or, Shr, Shl, NumOps };
static const char *const opName[] = {"+", "-", "*", "/", "&", "|", ">>", "<<"};
// reference result of one component; false where C++ leaves it undefined
template <class T, IfInt<T> = 0> bool ref(int op, T a, T b, int sh, T &out) {
  using P = decltype(T() + T());
  long long x = a, y = b, r = 0;
  switch (op) {
  case Add: r = x + y; break;
  case Sub: r = x - y; break;
  case Mul:
    if (std::is_unsigned<P>::value) { out = (T)((unsigned long long)x * (unsigned long long)y); return true; }
    r = x * y; break;
  case Div: if (!y) return false; r = x / y; break;
  case And: r = x & y; break;
  case Or: r = x | y; break;
  case Shr: r = x >> sh; break;
  case Shl: r = (long long)((unsigned long long)x << sh); if (std::is_signed<P>::value) { r = (long long)((uint64_t)x << sh); out = (T)r; return true; } break;
  }
  if (std::is_signed<P>::value && (r < INT32_MIN || r > INT32_MAX)) return false;
  out = (T)r;
  return true;
}
template <class T, IfFlt<T> = 0> bool ref(int op, T a, T b, int, T &out) {
  volatile T x = a, y = b, r = 0;
  switch (op) {
  case Add: r = x + y; break;
  case Sub: r = x - y; break;
  case Mul: r = x * y; break;
  case Div: r = x / y; break;
  }
  out = r;
  return true;
}
template <class V> struct Dim;
template <class T> struct Dim<t_Vector2<T>> { enum { N = 2 }; using S = t_Vector2<int32>; };
template <class T> struct Dim<t_Vector<T>> { enum { N = 3 }; using S = t_Vector<int32>; };
template <class T> struct Dim<t_Vector4_<T>> { enum { N = 4 }; using S = t_Vector4<int32>; };
template <class V> struct Simd { enum { value = 0 }; };
template <> struct Simd<Vector4A16> { enum { value = 1 }; };
template <> struct Simd<IVector4A16> { enum { value = 1 }; };
template <> struct Simd<UIVector4A16> { enum { value = 1 }; };

template <class V, class T> V make(const T *c, t_Vector2<T> *) { return V(c[0], c[1]); }
template <class V, class T> V make(const T *c, t_Vector<T> *) { return V(c[0], c[1], c[2]); }
template <class V, class T, class C> V make(const T *c, t_Vector4_<C> *) { return V(c[0], c[1], c[2], c[3]); }
template <class V, class T> V make(const T *c) { return make<V, T>(c, (V *)nullptr); }
template <class V, class T> std::string showC(const T *c) {
  std::ostringstream o;
  o.precision(20);
  o << '(';
  for (int i = 0; i < Dim<V>::N; i++) o << (i ? "," : "") << +c[i];
  o << ')';
  return o.str();
}
#define V_IS(v, c, msg)                                                                                              \
  for (int i_ = 0; i_ < Dim<V>::N; i_++) REQUIRE(same((T)(v)._arr[i_], (T)(c)[i_]), "component " << i_ << ": " << +(v)._arr[i_] << " vs " << +(c)[i_] << ": " << msg)

// vector/vector, vector/scalar, and compound forms
template <class V> struct Arith {
  using T = typename V::value_type;
  enum { N = Dim<V>::N };
  static std::string nm(int op, const T *a, const T *b) { return showC<V>(a) + opName[op] + showC<V>(b); }
#define FORMS(SYM, B, BS)                                                                                              \
  {                                                                                                                    \
    V x = make<V>(a);                                                                                                  \
    const V cx = x;                                                                                                    \
    if (form == 0) { V r = cx SYM (B); V_IS(r, want, nm(op, a, b)); V_IS(cx, a, "left operand of " << nm(op, a, b)); } \
    else if (form == 1) { auto &r = (x SYM##= (B)); V_IS(x, want, "compound " << nm(op, a, b));                          \
      REQUIRE((void *)&r == (void *)&x, "compound " << opName[op] << " returns another object"); }                      \
    else if (form == 2) { V r = cx SYM (BS); V_IS(r, want, "scalar " << nm(op, a, b)); }                                 \
    else { auto &r = (x SYM##= (BS)); V_IS(x, want, "compound scalar " << nm(op, a, b));                                 \
      REQUIRE((void *)&r == (void *)&x, "compound " << opName[op] << " returns another object"); }                      \
    break;                                                                                                             \
  }
  template <class W> static void bits(Src &, int op, int form, const T *a, const T *b, const T *want, const int32 *sh, W, std::true_type) {
    using S = typename Dim<V>::S;
    switch (op) {
    case And: FORMS(&, make<V>(b), b[0])
    case Or: FORMS(|, make<V>(b), b[0])
    case Shr: FORMS(>>, make<S>(sh), sh[0])
    case Shl: FORMS(<<, make<S>(sh), sh[0])
    }
  }
  template <class W> static void bits(Src &, int, int, const T *, const T *, const T *, const int32 *, W, std::false_type) {}
  static void run(Src &s) {
    const bool isInt = std::is_integral<T>::value;
    int op = (int)s.upto(isInt ? NumOps - 1 : Div), form = (int)s.upto(3);
    T a[4], b[4], want[4];
    int32 sh[4];
    for (int i = 0; i < N; i++) {
      a[i] = comp<T>(s), b[i] = form >= 2 && i ? b[0] : comp<T>(s);
      sh[i] = form >= 2 && i ? sh[0] : (int32)s.upto(sizeof(T) * 8 - 1);
    }
    for (int i = 0; i < N; i++)
      if (!ref<T>(op, a[i], b[i], sh[i], want[i])) {
        // keep to defined results
        if (form >= 2 || op == Div) { s.label("undefined by C++"); return; }
        b[i] = op == Sub ? a[i] : op == Mul ? (T)1 : (T)(0);
        if (op == Sub) b[i] = a[i];
        ref<T>(op, a[i], b[i], sh[i], want[i]);
      }
    s.note([&](std::ostream &o) { o << nm(op, a, b) << " form " << form; });
    switch (op) {
    case Add: FORMS(+, make<V>(b), b[0])
    case Sub: FORMS(-, make<V>(b), b[0])
    case Mul: FORMS(*, make<V>(b), b[0])
    case Div: FORMS(/, make<V>(b), b[0])
    default: bits(s, op, form, a, b, want, sh, 0, std::integral_constant<bool, std::is_integral<T>::value>());
    }
    bool zero = true;
    for (int i = 0; i < N; i++) zero &= a[i] == 0;
    s.nontrivial(!zero);
  }
};
template <class T> void arith(Src &s) {
  switch (s.upto(2)) {
  case 0: return Arith<t_Vector2<T>>::run(s);
  case 1: return Arith<t_Vector<T>>::run(s);
  default: return Arith<t_Vector4<T>>::run(s);
  }
}
PBT_TEST(scalar_arith, 120000, 3000000) {
  switch (s.upto(7)) {
  case 0: return arith<float>(s);
  case 1: return arith<int32>(s);
  case 2: return arith<int16>(s);
  case 3: return arith<int8>(s);
  case 4: return arith<uint32>(s);
  case 5: return arith<uint16>(s);
  case 6: return arith<uint8>(s);
  default: return arith<double>(s);
  }
}

// ---------------------------------------------------------------- SIMD
PBT_TEST(simd_float, 60000, 1500000) {
  using V = Vector4A16;
  using T = float;
  float a[4], b[4], want[4];
  int op = (int)s.upto(8), form = (int)s.upto(3);
  for (int i = 0; i < 4; i++) {
    a[i] = comp<float>(s), b[i] = form >= 2 && i ? b[0] : comp<float>(s);
    if (op > Div && s.chance(1, 2)) { uint32_t v = (uint32_t)s.bits(32); memcpy(&a[i], &v, 4); }
    if (op > Div && s.chance(1, 2) && (form < 2 || !i)) { uint32_t v = (uint32_t)s.bits(32); memcpy(&b[i], &v, 4); }
  }
  if (form >= 2) b[1] = b[2] = b[3] = b[0];
  const char *syms[] = {"+", "-", "*", "/", "&", "|", "^", "~", "-x"};
  std::string d = showC<V>(a) + syms[op] + showC<V>(b);
  for (int i = 0; i < 4; i++) {
    if (op <= Div) ref<float>(op, a[i], b[i], 0, want[i]);
    else {
      uint32_t x, y;
      memcpy(&x, &a[i], 4), memcpy(&y, &b[i], 4);
      x = op == 4 ? x & y : op == 5 ? x | y : op == 6 ? x ^ y : op == 7 ? ~x : x ^ 0x80000000u;
      memcpy(&want[i], &x, 4);
    }
  }
  V x = make<V>(a);
  const V cx = x, y = make<V>(b);
  V r;
  auto bitsame = [&](const V &v, const char *what) {
    for (int i = 0; i < 4; i++)
      REQUIRE(op > Div && op != 8 ? !memcmp(&v._arr[i], &want[i], 4) : same((float)v._arr[i], want[i]), what << " component " << i << ": " << v._arr[i] << " vs " << want[i] << ": " << d);
  };
#define SFORMS(SYM)                                                                                                    \
  if (form == 0) r = cx SYM y; else if (form == 2) r = cx SYM b[0]; else { const void *p = form == 1 ? (const void *)&(x SYM##= y) : (const void *)&(x SYM##= b[0]); \
    REQUIRE(p == (void *)&x, "compound returns another object"); r = x; }                                              \
  break;
  switch (op) {
  case 0: SFORMS(+)
  case 1: SFORMS(-)
  case 2: SFORMS(*)
  case 3: SFORMS(/)
  case 4: SFORMS(&)
  case 5: SFORMS(|)
  case 6: SFORMS(^)
  case 7: r = ~cx; break;
  default: r = -cx; break;
  }
  bitsame(r, "result");
  REQUIRE(!memcmp(&cx, a, 16) , "left operand changed: " << d);
  s.nontrivial(a[0] != 0 || a[1] != 0);
  s.note([&](std::ostream &o) { o << d; });
}
template <class V, class T> void simdInt(Src &s) {
  T a[4], b[4], want[4];
  int op = (int)s.upto(8), form = (int)s.upto(3);
  for (int i = 0; i < 4; i++) a[i] = comp<T>(s), b[i] = form >= 2 && i ? b[0] : comp<T>(s);
  int sh = (int)s.upto(31);
  const char *syms[] = {"+", "-", "*", "&", "|", "^", "<<", ">>", "~"};
  std::string d = showC<V>(a) + syms[op] + showC<V>(b) + "/" + std::to_string(sh);
  for (int i = 0; i < 4; i++) {
    uint32_t x = (uint32_t)a[i], y = (uint32_t)b[i];
    switch (op) {
    case 0: want[i] = (T)(x + y); break;
    case 1: want[i] = (T)(x - y); break;
    case 2: want[i] = (T)(x * y); break;
    case 3: want[i] = (T)(x & y); break;
    case 4: want[i] = (T)(x | y); break;
    case 5: want[i] = (T)(x ^ y); break;
    case 6: want[i] = (T)(x << sh); break;
    case 7: want[i] = (T)((long long)a[i] >> sh); break;
    default: want[i] = (T)~x;
    }
  }
  V x = make<V>(a);
  const V cx = x, y = make<V>(b);
  V r;
  switch (op) {
  case 0: SFORMS(+)
  case 1: SFORMS(-)
  case 2: SFORMS(*)
  case 3: SFORMS(&)
  case 4: SFORMS(|)
  case 5: if (form == 2) r = cx ^ V(b[0]); else if (form == 0) r = cx ^ y; else if (form == 1) r = (x ^= y); else r = (x ^= b[0]); break;
  case 6: if (form < 2) r = cx << sh; else r = (x <<= sh); break;
  case 7: if (form < 2) r = cx >> sh; else r = (x >>= sh); break;
  default: r = ~cx; break;
  }
  V_IS(r, want, d);
  V_IS(cx, a, "left operand of " << d);
  // comparison
  bool eq = !memcmp(a, b, sizeof a);
  REQUIRE_EQ(cx == y, eq, "equality of " << showC<V>(a) << showC<V>(b));
  REQUIRE_EQ(cx != y, !eq, "inequality of " << showC<V>(a) << showC<V>(b));
  T c[4];
  memcpy(c, a, sizeof c);
  REQUIRE(cx == make<V>(c), "equality of same " << showC<V>(a));
  c[s.upto(3)] ^= (T)((uint32_t)1 << s.upto(31));
  REQUIRE(!(cx == make<V>(c)) && cx != make<V>(c), "equality of " << showC<V>(a) << showC<V>(c));
  // to floats, to other integers, from scalar vectors
  V4SimdFltType f = cx;
  V4ScalarType<double> dd = cx.template Convert<double>();
  V4ScalarType<uint8> u8 = cx.template Convert<uint8>();
  for (int i = 0; i < 4; i++) {
    // the codecs rely on the conversion of unsigned vectors being signed
    if (std::is_signed<T>::value || a[i] <= 0x7fffffffu) REQUIRE_EQ((float)f._arr[i], (float)a[i], "integer " << a[i] << " as float");
    REQUIRE_EQ((double)dd._arr[i], (double)a[i], "integer converted");
    REQUIRE_EQ((int)u8._arr[i], (int)(uint8)a[i], "integer narrowed");
  }
  V sv = V(t_Vector4<T>(a[0], a[1], a[2], a[3]));
  V_IS(sv, a, "from scalar vector");
  IVector4A16 iv(cx);
  UIVector4A16 uv(cx);
  for (int i = 0; i < 4; i++) {
    REQUIRE_EQ((uint32)iv._arr[i], (uint32)a[i], "to signed");
    REQUIRE_EQ((uint32)uv._arr[i], (uint32)a[i], "to unsigned");
  }
  s.nontrivial(a[0] != 0 || a[1] != 0);
  s.note([&](std::ostream &o) { o << d; });
}
PBT_TEST(simd_int, 60000, 1500000) {
  if (s.coin()) simdInt<IVector4A16, int32>(s);
  else simdInt<UIVector4A16, uint32>(s);
}

// ------------------------------------------------- comparisons of floats
template <class T> int nearly(T a, T b, double eps) { // 1 equal, 0 not, -1 unspecified
  if (std::isinf(a) || std::isinf(b)) return a == b;
  if (fabs((double)a - (double)b) == eps && (T)(b + (T)(a < b ? -eps : eps)) == a && (sizeof(T) < 8 || fabs((long double)a - (long double)b) == (long double)eps)) return 1; // exactly the epsilon apart
  double d = fabs((double)a - (double)b), m = std::max(fabs((double)a), fabs((double)b));
  double ulp = m * std::numeric_limits<T>::epsilon();
  if (a != a || b != b) return 0;
  if (d == 0) return 1;
  if (d > eps * 1.001 + ulp) return 0;
  if (d < eps * 0.999 - ulp) return 1;
  return -1;
}
template <class V> void cmpFloat(Src &s, double eps) {
  using T = typename V::value_type;
  enum { N = Dim<V>::N };
  T a[4], b[4];
  int all = 1;
  bool lt = true, gt = true, nan = false, anyGt = false, anyLt = false, sure = true;
  for (int i = 0; i < N; i++) {
    a[i] = comp<T>(s);
    switch (s.upto(4)) {
    case 0: b[i] = comp<T>(s); break;
    case 1: b[i] = (T)(a[i] + eps * ((double)s.upto(64) - 32) / 16); break;
    case 2: b[i] = s.chance(1, 12) ? (T)NAN : a[i]; break;
    default: b[i] = a[i];
    }
    if (s.chance(1, 20)) a[i] = s.coin() ? (T)INFINITY : -(T)INFINITY, b[i] = s.chance(3, 4) ? a[i] : s.coin() ? -a[i] : b[i];
    int n = nearly<T>(a[i], b[i], eps);
    all = !all || !n ? 0 : n < 0 ? -1 : all;
    lt &= a[i] < b[i], gt &= a[i] > b[i];
    nan |= b[i] != b[i];
    anyGt |= a[i] > b[i] && n == 0, anyLt |= a[i] < b[i] && n == 0;
    sure &= n >= 0;
  }
  V x = make<V>(a), y = make<V>(b);
  std::string d = showC<V>(a) + " and " + showC<V>(b);
  bool e = x == y;
  if (all >= 0) REQUIRE_EQ(e, all == 1, "equality of " << d);
  REQUIRE_EQ(x != y, !e, "inequality of " << d);
  if (all >= 0) REQUIRE_EQ(y == x, e, "swapped equality of " << d);
  s.nontrivial(true);
  if (e) s.label("equal");
}
static void simdOrder(Src &s) {
  using V = Vector4A16;
  float a[4], b[4];
  bool lt = true, gt = true, anyLt = false, anyGt = false;
  int all = 1;
  bool sc = s.chance(1, 4);
  int mode = (int)s.upto(3);
  for (int i = 0; i < 4; i++) {
    b[i] = sc && i ? b[0] : comp<float>(s);
    float dist = (float)s.upto(3) + 0.5f;
    a[i] = mode == 0 ? b[i] - dist * std::max(1.f, fabsf(b[i])) : mode == 1 ? b[i] + dist * std::max(1.f, fabsf(b[i])) : s.chance(1, 2) ? b[i] : comp<float>(s);
    if (s.chance(1, 40)) a[i] = NAN;
    lt &= a[i] < b[i], gt &= a[i] > b[i];
    int n = nearly<float>(a[i], b[i], FLT_EPSILON);
    all = !all || !n ? 0 : n < 0 ? -1 : all;
    anyLt |= a[i] < b[i] && !n, anyGt |= (a[i] > b[i] && !n) || a[i] != a[i];
  }
  V x = make<V>(a), y = make<V>(b);
  std::string d = showC<V>(a) + " and " + showC<V>(b);
  auto chk = [&](bool l, bool g, bool le, bool ge) {
    REQUIRE_EQ(l, lt, "less " << d);
    REQUIRE_EQ(g, gt, "greater " << d);
    if (lt || all == 1) REQUIRE(le, "less or equal " << d);
    if (gt || all == 1) REQUIRE(ge, "greater or equal " << d);
    bool nan = false;
    for (float c : a) nan |= c != c;
    if (anyGt || nan) REQUIRE(!le, "less or equal " << d);
    if (anyLt || nan) REQUIRE(!ge, "greater or equal " << d);
  };
  if (sc) chk(x < b[0], x > b[0], x <= b[0], x >= b[0]);
  else chk(x < y, x > y, x <= y, x >= y);
  s.label(lt ? "less" : gt ? "greater" : all == 1 ? "equal" : "mixed");
  s.nontrivial(true);
}
PBT_TEST(comparisons, 40000, 1000000) {
  switch (s.upto(6)) {
  case 0: return cmpFloat<Vector2>(s, FLT_EPSILON);
  case 1: return cmpFloat<Vector>(s, FLT_EPSILON);
  case 2: return cmpFloat<Vector4>(s, FLT_EPSILON);
  case 3: return cmpFloat<t_Vector<double>>(s, FLT_EPSILON);
  case 4: return cmpFloat<Vector4A16>(s, FLT_EPSILON);
  case 5: {
    float e = (float)ldexp(1, -(int)s.upto(20));
    Vector4A16::SetEpsilon(e);
    struct R { ~R() { Vector4A16::SetEpsilon(FLT_EPSILON); } } r;
    return cmpFloat<Vector4A16>(s, e);
  }
  default: return simdOrder(s);
  }
}
template <class V> void cmpInt(Src &s) {
  using T = typename V::value_type;
  T a[4], b[4];
  bool eq = true, sym = true;
  bool neg = false;
  for (int i = 0; i < Dim<V>::N; i++) {
    a[i] = i && s.chance(3, 4) ? a[0] : comp<T>(s), b[i] = s.chance(5, 6) ? a[i] : (T)(a[i] ^ (T)(1ull << s.upto(sizeof(T) * 8 - 1)));
    eq &= a[i] == b[i], sym &= a[i] == a[0], neg |= (long long)a[i] < 0;
  }
  V x = make<V>(a), y = make<V>(b);
  std::string d = showC<V>(a) + " and " + showC<V>(b);
  REQUIRE_EQ(x == y, eq, "equality of " << d);
  REQUIRE_EQ(x != y, !eq, "inequality of " << d);
  REQUIRE_EQ(x.IsSymetrical(), sym, "symmetry of " << d);
  REQUIRE_EQ(x.Sign(), neg ? -1 : 1, "sign of " << d);
  s.nontrivial(true);
  s.label(sym ? "symmetrical" : "not symmetrical");
}
template <class T> void cmpInts(Src &s) {
  switch (s.upto(2)) {
  case 0: return cmpInt<t_Vector2<T>>(s);
  case 1: return cmpInt<t_Vector<T>>(s);
  default: return cmpInt<t_Vector4<T>>(s);
  }
}
PBT_TEST(comparisons_int, 30000, 600000) {
  switch (s.upto(5)) {
  case 0: return cmpInts<int32>(s);
  case 1: return cmpInts<uint32>(s);
  case 2: return cmpInts<int16>(s);
  case 3: return cmpInts<uint16>(s);
  case 4: return cmpInts<int8>(s);
  default: return cmpInts<uint8>(s);
  }
}

// ------------------------------------------------- products, lengths, conversions
static double mag(Src &s) { return ldexp((double)s.irange(-4096, 4096) / 512, (int)s.irange(-8, 8)); }
#define NEAR(a, b, tol, msg) REQUIRE(fabs((double)(a) - (double)(b)) <= (tol), (double)(a) << " vs " << (double)(b) << " (tolerance " << (tol) << "): " << msg)
// lengths far from one
static int tiny(Src &s) { return s.chance(1, 4) ? (int)s.irange(-40, 40) : 0; }
template <class V> void geometry(Src &s) {
  using T = typename V::value_type;
  enum { N = Dim<V>::N };
  T a[4], b[4];
  double dot = 0, absd = 0, sq = 0;
  const int scale = tiny(s);
  for (int i = 0; i < N; i++) {
    a[i] = s.chance(1, 5) ? 0 : (T)ldexp(mag(s), scale), b[i] = (T)ldexp(mag(s), scale);
    dot += (double)a[i] * b[i], absd += fabs((double)a[i] * b[i]), sq += (double)a[i] * a[i];
  }
  const V x = make<V>(a), y = make<V>(b);
  const double E = std::numeric_limits<T>::epsilon();
  std::string d = showC<V>(a) + " and " + showC<V>(b);
  NEAR(x.Dot(y), dot, absd * 4 * E, "product of " << d);
  NEAR(x.Length(), sqrt(sq), sqrt(sq) * 4 * E, "length of " << d);
  V n = x;
  auto &r = n.Normalize();
  REQUIRE((void *)&r == (void *)&n, "Normalize returns another object");
  for (int i = 0; i < N; i++) {
    double w = sq ? a[i] / sqrt(sq) : 0;
    NEAR(n._arr[i], w, fabs(w) * 6 * E, "normalized " << d << " component " << i);
  }
  V m = -x;
  for (int i = 0; i < N; i++) REQUIRE_EQ((T)m._arr[i], (T)-a[i], "negated " << d);
  bool sym = true, nsym = false;
  for (int i = 1; i < N; i++) sym &= a[i] == a[0], nsym |= fabs((double)a[i] - a[0]) > 1e-6 * (1 + fabs((double)a[0]));
  if (sym) REQUIRE(x.IsSymetrical(), "symmetry of " << d);
  if (nsym) REQUIRE(!x.IsSymetrical(), "symmetry of " << d);
  T c[4];
  int other = (int)s.upto(N - 1);
  for (int i = 0; i < N; i++) c[i] = a[0];
  REQUIRE(make<V>(c).IsSymetrical(), "symmetry of equal " << +a[0]);
  REQUIRE(V(a[0]) == make<V>(c), "vector of one value");
  c[other] += 1 + fabs(c[other]);
  REQUIRE(!make<V>(c).IsSymetrical(), "symmetry with component " << other << " different: " << showC<V>(c));
  s.nontrivial(sq > 0);
  s.note([&](std::ostream &o) { o << d; });
}
static void simdGeometry(Src &s) {
  geometry<Vector4A16>(s);
  float a[4], b[4];
  bool neg = false;
  double sq = 0, dot = 0, absd = 0;
  const int scale = tiny(s);
  for (int i = 0; i < 4; i++) a[i] = (float)ldexp(mag(s), scale), b[i] = (float)ldexp(mag(s), scale), neg |= std::signbit(a[i]), sq += (double)a[i] * a[i], dot += (double)a[i] * b[i], absd += fabs((double)a[i] * b[i]);
  const Vector4A16 x = make<Vector4A16>(a), y = make<Vector4A16>(b);
  if (s.coin()) { for (float &f : a) f = fabsf(f); neg = false; }
  const Vector4A16 xs = make<Vector4A16>(a);
  REQUIRE_EQ(xs.Sign(), neg ? -1 : 1, "sign of " << showC<Vector4A16>(a));
  for (int i = 0; i < 4; i++) a[i] = x._arr[i];
  Vector4A16 dv = x.DotV(y);
  for (int i = 0; i < 4; i++) NEAR(dv._arr[i], dot, absd * 1e-6, "DotV component " << i);
  Vector4A16 c = x.Cross(y);
  Vector cs = Vector(a[0], a[1], a[2]).Cross(Vector(b[0], b[1], b[2]));
  for (int i = 0; i < 3; i++) {
    int j = (i + 1) % 3, k = (i + 2) % 3;
    double w = (double)a[j] * b[k] - (double)a[k] * b[j], t = (fabs((double)a[j] * b[k]) + fabs((double)a[k] * b[j])) * 3e-7;
    NEAR(c._arr[i], w, t, "SIMD cross component " << i << " of " << showC<Vector4A16>(a) << showC<Vector4A16>(b));
    NEAR(cs._arr[i], w, t, "scalar cross component " << i << " of " << showC<Vector4A16>(a) << showC<Vector4A16>(b));
  }
  REQUIRE_EQ((float)c.W, 0.f, "W of cross product");
  Vector4A16 nn = x.Normalized();
  for (int i = 0; i < 4; i++) NEAR(nn._arr[i], sq ? a[i] / sqrt(sq) : 0, 1e-6, "Normalized");
  for (int i = 0; i < 4; i++) REQUIRE_EQ((float)x._arr[i], a[i], "Normalized changed its object");
  Vector4A16 q = x.QConjugate();
  for (int i = 0; i < 4; i++) REQUIRE_EQ((float)q._arr[i], i == 3 ? a[i] : -a[i], "conjugate of " << showC<Vector4A16>(a));
  // missing element of a unit quaternion
  double len = sqrt(sq) * (1 + s.upto(16) / 16.0) * 1.00001;
  int el = (int)s.upto(3);
  if (sq > 0) {
    float u[4];
    double rest = 0;
    for (int i = 0; i < 4; i++) u[i] = i == el ? 0 : (float)(a[i] / len), rest += (double)u[i] * u[i];
    if (rest < 0.99999) { // a small one included
      Vector4A16 e = make<Vector4A16>(u), e2 = e;
      switch (el) {
      case 0: e.QComputeElement<0>(); break;
      case 1: e.QComputeElement<1>(); break;
      case 2: e.QComputeElement<2>(); break;
      default: s.coin() ? e.QComputeElement() : e.QComputeElement<3>();
      }
      if (el == 3 && s.coin()) e2.QComputeElementVar(); else e2.QComputeElementVar(el);
      double w = sqrt(1 - rest);
      for (int i = 0; i < 4; i++) {
        NEAR(e._arr[i], i == el ? w : u[i], i == el ? 1e-6 / w : 0, "computed element " << el << " of " << showC<Vector4A16>(u) << " at " << i);
        NEAR(e2._arr[i], i == el ? w : u[i], i == el ? 1e-6 / w : 0, "computed element " << el << " (var) of " << showC<Vector4A16>(u) << " at " << i);
      }
    }
  }
}
PBT_TEST(products, 40000, 1000000) {
  switch (s.upto(5)) {
  case 0: return geometry<Vector2>(s);
  case 1: return geometry<Vector>(s);
  case 2: return geometry<Vector4>(s);
  case 3: return geometry<t_Vector2<double>>(s);
  default: return simdGeometry(s);
  }
}
// lengths whose squares the component type cannot hold
template <class V> void longOnes(Src &s) {
  using T = typename V::value_type;
  enum { N = Dim<V>::N };
  T a[4];
  double sq = 0;
  const bool flt = std::is_floating_point<T>::value;
  const int scale = flt ? s.irange(-110, 100) : 0;
  for (int i = 0; i < N; i++) {
    if (flt) a[i] = s.chance(1, 5) ? 0 : (T)ldexp(mag(s), scale);
    else {
      const long long lim = (long long)(std::numeric_limits<T>::max() / 2.01);
      a[i] = (T)(s.chance(1, 4) ? lim - (long long)s.upto(3) : (long long)s.upto(lim));
      if (std::is_signed<T>::value && s.coin()) a[i] = -a[i];
    }
    sq += (double)a[i] * a[i];
  }
  const V x = make<V>(a);
  const double E = flt ? std::numeric_limits<T>::epsilon() : 0;
  if (flt) {
    NEAR(x.Length(), sqrt(sq), std::max(sqrt(sq) * 4 * E, ldexp(1., -149)), "length of " << showC<V>(a));
    V n = x;
    n.Normalize();
    if (sqrt(sq) > 1e-36)
      for (int i = 0; i < N; i++) {
        double w = a[i] / sqrt(sq);
        NEAR(n._arr[i], w, fabs(w) * 6 * E + 1e-45, "normalized " << showC<V>(a) << " component " << i);
      }
  } else {
    NEAR(x.Length(), sqrt(sq), 1.0001, "length of " << showC<V>(a));
  }
  s.nontrivial(sq > 1e9 || (sq && sq < 1e-9));
  s.note([&](std::ostream &o) { o << showC<V>(a); });
}
PBT_TEST(far_lengths, 20000, 400000) {
  switch (s.upto(8)) {
  case 0: return longOnes<Vector2>(s);
  case 1: return longOnes<Vector>(s);
  case 2: return longOnes<Vector4>(s);
  case 3: return longOnes<t_Vector2<int32>>(s);
  case 4: return longOnes<t_Vector<int32>>(s);
  case 5: return longOnes<t_Vector4<int32>>(s);
  case 6: return longOnes<t_Vector<int16>>(s);
  case 7: return longOnes<t_Vector4<uint16>>(s);
  default: return longOnes<t_Vector<uint32>>(s);
  }
}
template <class V> void intGeometry(Src &s) {
  using T = typename V::value_type;
  enum { N = Dim<V>::N };
  const long long lim = sizeof(T) == 1 ? 50 : sizeof(T) == 2 ? 15000 : 20000;
  T a[4], b[4];
  long long dot = 0;
  double sq = 0;
  for (int i = 0; i < N; i++) {
    a[i] = (T)s.irange(std::is_signed<T>::value ? -lim : 0, lim), b[i] = (T)s.irange(std::is_signed<T>::value ? -lim : 0, lim);
    dot += (long long)a[i] * b[i], sq += (double)a[i] * a[i];
  }
  const V x = make<V>(a), y = make<V>(b);
  std::string d = showC<V>(a) + " and " + showC<V>(b);
  if (sizeof(T) < 4 || std::is_unsigned<T>::value || llabs(dot) <= INT32_MAX) REQUIRE_EQ((long long)x.Dot(y), (long long)(T)dot, "product of " << d);
  if (sqrt(sq) < (double)std::numeric_limits<T>::max()) REQUIRE_EQ((long long)x.Length(), (long long)sqrt(sq), "length of " << d);
  V m = -x;
  for (int i = 0; i < N; i++) REQUIRE_EQ((long long)m._arr[i], (long long)(T)(-(long long)a[i]), "negated " << d);
  s.nontrivial(sq > 0);
}
template <class T> void intGeo(Src &s) {
  switch (s.upto(2)) {
  case 0: return intGeometry<t_Vector2<T>>(s);
  case 1: {
    intGeometry<t_Vector<T>>(s);
    T a[3], b[3], w[3];
    for (int i = 0; i < 3; i++) a[i] = (T)s.irange(std::is_signed<T>::value ? -100 : 0, 100), b[i] = (T)s.irange(0, 100);
    for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; w[i] = (T)(a[j] * b[k] - a[k] * b[j]); }
    t_Vector<T> c = t_Vector<T>(a[0], a[1], a[2]).Cross(t_Vector<T>(b[0], b[1], b[2]));
    for (int i = 0; i < 3; i++) REQUIRE_EQ((long long)c._arr[i], (long long)w[i], "integer cross product");
    return;
  }
  default: return intGeometry<t_Vector4<T>>(s);
  }
}
PBT_TEST(products_int, 20000, 400000) {
  switch (s.upto(5)) {
  case 0: return intGeo<int32>(s);
  case 1: return intGeo<uint32>(s);
  case 2: return intGeo<int16>(s);
  case 3: return intGeo<uint16>(s);
  case 4: return intGeo<int8>(s);
  default: return intGeo<uint8>(s);
  }
}
template <class T, class T2> void conv(Src &s) {
  T a[4];
  for (T &c : a) {
    c = comp<T>(s);
    if (std::is_floating_point<T>::value) c = (T)s.irange(std::is_unsigned<T2>::value ? 0 : -120 * 8, 120 * 8) / 8; // in range of every type
  }
  t_Vector2<T> v2(a[0], a[1]);
  t_Vector<T> v3(a[0], a[1], a[2]);
  t_Vector4<T> v4(a[0], a[1], a[2], a[3]);
  auto c2 = v2.template Convert<T2>();
  auto c3 = v3.template Convert<T2>();
  auto c4 = v4.template Convert<T2>();
  for (int i = 0; i < 4; i++) {
    T2 w = static_cast<T2>(a[i]);
    if (i < 2) REQUIRE(same(c2._arr[i], w), "converted 2: " << +a[i]);
    if (i < 3) REQUIRE(same(c3._arr[i], w), "converted 3: " << +a[i]);
    REQUIRE(same(c4._arr[i], w), "converted 4: " << +a[i]);
    if (i < 2) REQUIRE(same(v2[i], a[i]) && same(v3[i], a[i]), "indexed");
    REQUIRE(same(v4[i], a[i]), "indexed");
  }
  REQUIRE(same(v4.X, a[0]) && same(v4.Y, a[1]) && same(v4.Z, a[2]) && same(v4.W, a[3]) && same(v4.x, a[0]) && same(v4.w, a[3]), "components by name");
  t_Vector<T> n3 = v4;
  t_Vector2<T> n2 = v4, m2 = v3;
  t_Vector4<T> w4 = v3;
  REQUIRE(same(n3.X, a[0]) && same(n3.Y, a[1]) && same(n3.Z, a[2]), "shortened to 3");
  REQUIRE(same(n2.X, a[0]) && same(n2.Y, a[1]) && same(m2.X, a[0]) && same(m2.Y, a[1]), "shortened to 2");
  REQUIRE(same(w4.X, a[0]) && same(w4.Y, a[1]) && same(w4.Z, a[2]) && w4.W == 0, "lengthened to 4");
  // text
  auto num = [&](T v) { std::ostringstream o; o << v; return o.str(); };
  std::ostringstream o2, o3, o4;
  o2 << v2, o3 << v3, o4 << v4;
  if (sizeof(T) > 1) {
    REQUIRE_EQ(o2.str(), num(a[0]) + ' ' + num(a[1]), "stream of 2");
    REQUIRE_EQ(o3.str(), num(a[0]) + ' ' + num(a[1]) + ' ' + num(a[2]), "stream of 3");
    REQUIRE_EQ(o4.str(), num(a[0]) + ' ' + num(a[1]) + ' ' + num(a[2]) + ' ' + num(a[3]), "stream of 4");
  }
  auto ts = [&](int n) { std::string r; for (int i = 0; i < n; i++) r += (i ? " " : "") + std::to_string(a[i]); return r; };
  REQUIRE_EQ(std::to_string(v2), ts(2), "text of 2");
  REQUIRE_EQ(std::to_string(v3), ts(3), "text of 3");
  REQUIRE_EQ(std::to_string(v4), ts(4), "text of 4");
  auto same = [](const std::wstring &w, const std::string &n) { return std::wstring(n.begin(), n.end()) == w; };
  REQUIRE(same(std::to_wstring(v2), ts(2)), "wide text of 2");
  REQUIRE(same(std::to_wstring(v3), ts(3)), "wide text of 3");
  REQUIRE(same(std::to_wstring(v4), ts(4)), "wide text of 4");
  s.nontrivial(a[0] != 0 || a[1] != 0);
}
static void simdConv(Src &s) {
  float a[4];
  for (float &f : a) f = s.coin() ? (float)s.irange(-2000, 2000) / 4 : (float)ldexp((double)s.irange(-(1 << 24), 1 << 24), (int)s.upto(6));
  Vector4A16 v = make<Vector4A16>(a);
  V4SimdIntType i = v;
  auto d = v.Convert<double>();
  auto t = v.Convert<int>();
  for (int k = 0; k < 4; k++) {
    double r = nearbyint((double)a[k]);
    REQUIRE_EQ((double)i._arr[k], r, "rounded " << a[k]);
    REQUIRE_EQ((double)d._arr[k], (double)a[k], "as double");
    REQUIRE_EQ((double)t._arr[k], trunc((double)a[k]), "cut " << a[k]);
  }
  {
    Vector4A16 w(Vector(a[0], a[1], a[2]), a[3]), z(Vector4(a[0], a[1], a[2], a[3]));
    REQUIRE(!memcmp(&w, a, 16) && !memcmp(&z, a, 16), "built from scalar vectors");
    Vector n3 = v;
    Vector2 n2 = v;
    REQUIRE(n3.X == a[0] && n3.Y == a[1] && n3.Z == a[2] && n2.X == a[0] && n2.Y == a[1], "shortened");
    Vector4A16 l = Vector(a[0], a[1], a[2]);
    REQUIRE(l.X == a[0] && l.Y == a[1] && l.Z == a[2] && l.W == 0, "lengthened");
  }
  s.nontrivial(true);
}
PBT_TEST(conversions, 20000, 400000) {
  switch (s.upto(8)) {
  case 0: return conv<float, int32>(s);
  case 1: return conv<float, uint8>(s);
  case 2: return conv<int32, float>(s);
  case 3: return conv<int16, int8>(s);
  case 4: return conv<uint16, uint32>(s);
  case 5: return conv<int8, int32>(s);
  case 6: return conv<uint8, float>(s);
  case 7: return conv<uint32, int16>(s);
  default: return simdConv(s);
  }
}

// how vectors start and how they are copied and given
template <class V> static void constructed(Src &s) {
  using T = typename V::value_type;
  enum { N = Dim<V>::N };
  T a[4], z[4] = {}, one[4];
  for (auto &x : a) x = comp<T>(s);
  for (auto &x : one) x = a[0];
  // storage that held something else before
  alignas(16) char raw[sizeof(V)];
  memset(raw, 0x5a, sizeof raw);
  V *d = new (raw) V();
  V_IS(*d, z, "default made");
  memset(raw, 0x5a, sizeof raw);
  d = new (raw) V(a[0]);
  V_IS(*d, one, "made of " << +a[0]);
  V v = make<V>(a), c = v;
  V_IS(v, a, "made of components");
  V_IS(c, a, "copied");
  size_t k = s.upto(N - 1);
  T other = comp<T>(s);
  c._arr[k] = other;
  V_IS(v, a, "original of a changed copy");
  c = v;
  V_IS(c, a, "assigned");
  c = c;
  V_IS(c, a, "assigned to itself");
  c[k] = other, a[k] = other;
  V_IS(c, a, "changed by index " << k);
  const V &cc = c;
  REQUIRE(same((T)cc[k], other), "read by index " << k);
  std::vector<V> many(1 + s.upto(4));
  for (auto &m : many) V_IS(m, z, "item of a vector of vectors");
  static_assert(sizeof(V) == sizeof(T) * N, "no padding in vectors");
  s.nontrivial(a[0] != 0);
}
template <class T> static void constructedAll(Src &s) { constructed<t_Vector2<T>>(s), constructed<t_Vector<T>>(s), constructed<t_Vector4<T>>(s); }
PBT_TEST(construction, 15000, 400000) {
  switch (s.upto(7)) {
  case 0: constructedAll<float>(s); break;
  case 1: constructedAll<int32>(s); break;
  case 2: constructedAll<uint32>(s); break;
  case 3: constructedAll<int16>(s); break;
  case 4: constructedAll<uint8>(s); break;
  case 5: constructed<Vector4A16>(s); break;
  case 6: constructed<IVector4A16>(s), constructed<UIVector4A16>(s); break;
  default: {
    alignas(16) char raw[sizeof(esMatrix44)];
    memset(raw, 0x5a, sizeof raw);
    auto *m = new (raw) esMatrix44();
    float f[16];
    for (auto &x : f) x = comp<float>(s);
    auto row = [&](int i) { return Vector4A16(f[i * 4], f[i * 4 + 1], f[i * 4 + 2], f[i * 4 + 3]); };
    for (int i = 0; i < 16; i++) REQUIRE_EQ(m->v[i / 4]._arr[i % 4], (float)(i % 5 == 0), "item " << i << " of a default matrix");
    Vector4A16 rows[4] = {row(0), row(1), row(2), row(3)};
    esMatrix44 m3(row(0), row(1), row(2)), m4(row(0), row(1), row(2), row(3)), mr(rows), copy = m4, as;
    as = m4;
    REQUIRE(!memcmp(&m4, f, 64) && !memcmp(&mr, f, 64) && !memcmp(&copy, f, 64) && !memcmp(&as, f, 64), "matrix made of rows");
    REQUIRE(!memcmp(&m3, f, 48), "matrix made of three rows");
    const esMatrix44 &c = m4;
    size_t r = s.upto(3);
    REQUIRE(&m4[r] == m4.v + r && &c[r] == m4.v + r && &m4.r1() == m4.v && &m4.r2() == m4.v + 1 && &m4.r3() == m4.v + 2 && &m4.r4() == m4.v + 3 && &c.r1() == m4.v && &c.r2() == m4.v + 1 && &c.r3() == m4.v + 2 && &c.r4() == m4.v + 3, "rows of a matrix");
    as.MakeIdentity();
    REQUIRE(!memcmp(&as, raw, 64), "identity made");
    s.nontrivial();
  }
  }
}

// ------------------------------------------------- matrices
struct M { double m[4][4]; };
static M mul(const M &a, const M &b) {
  M r{};
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) for (int k = 0; k < 4; k++) r.m[i][j] += a.m[i][k] * b.m[k][j];
  return r;
}
static M val(const esMatrix44 &a) {
  M r;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.m[i][j] = a.v[i]._arr[j];
  return r;
}
static void unitQuat(Src &s, double *q) {
  double l = 0;
  for (;;) {
    int kind = (int)s.upto(4);
    for (int i = 0; i < 4; i++)
      q[i] = kind == 0 ? (double)s.irange(-1, 1) : kind == 1 ? (double)s.irange(-1000, 1000) : kind == 2 ? (double)s.irange(-1000, 1000) * (i == 3 ? 0 : 1)
           : kind == 3 ? (double)s.irange(-1000, 1000) * (s.chance(1, 2) ? 1 : 0.001) : (double)s.irange(-3, 3);
    l = 0;
    for (int i = 0; i < 4; i++) l += q[i] * q[i];
    if (l > 0) break;
    q[3] = l = 1;
    break;
  }
  for (int i = 0; i < 4; i++) q[i] = (float)(q[i] / sqrt(l));
}
// points are row vectors and turn by the conjugate of q (the project's tests)
static M rotOf(const double *q) {
  double x = -q[0], y = -q[1], z = -q[2], w = q[3];
  return {{{1 - 2 * (y * y + z * z), 2 * (x * y + z * w), 2 * (x * z - y * w), 0},
           {2 * (x * y - z * w), 1 - 2 * (x * x + z * z), 2 * (y * z + x * w), 0},
           {2 * (x * z + y * w), 2 * (y * z - x * w), 1 - 2 * (x * x + y * y), 0},
           {0, 0, 0, 1}}};
}
static esMatrix44 of(const M &m) {
  Vector4A16 r[4];
  for (int i = 0; i < 4; i++) r[i] = Vector4A16((float)m.m[i][0], (float)m.m[i][1], (float)m.m[i][2], (float)m.m[i][3]);
  return esMatrix44(r);
}
static std::string showM(const M &m) {
  std::ostringstream o;
  for (int i = 0; i < 4; i++) { o << (i ? " | " : "["); for (int j = 0; j < 4; j++) o << (j ? " " : "") << m.m[i][j]; }
  o << "]";
  return o.str();
}
static void nearM(const esMatrix44 &got, const M &w, double tol, const char *what) {
  M g = val(got);
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 4; j++)
      NEAR(g.m[i][j], w.m[i][j], tol, what << " at " << i << "," << j << ": " << showM(g) << " vs " << showM(w));
}
static const M ident = {{{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}}};
static Vector4A16 v4(const double *q) { return Vector4A16((float)q[0], (float)q[1], (float)q[2], (float)q[3]); }

PBT_TEST(matrix_products, 30000, 800000) {
  M a, b;
  double ma = 0, mb = 0;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
    a.m[i][j] = (float)mag(s), b.m[i][j] = (float)mag(s);
    ma = std::max(ma, fabs(a.m[i][j])), mb = std::max(mb, fabs(b.m[i][j]));
  }
  esMatrix44 A = of(a), B = of(b);
  const double tol = ma * mb * 4 * 4 * 6e-8;
  int k = (int)s.upto(3);
  M w = k == 3 ? mul(a, a) : mul(a, b);
  if (k == 0) nearM(A * B, w, tol, "product");
  else if (k == 1) { esMatrix44 c = A; esMatrix44 &r = (c *= B); REQUIRE(&r == &c, "returns another object"); nearM(c, w, tol, "product in place"); }
  else if (k == 2) { esMatrix44 c = A * B; nearM(A, a, 0, "left operand"); nearM(B, b, 0, "right operand"); nearM(c, w, tol, "product"); }
  else { esMatrix44 c = A; c *= c; nearM(c, w, ma * ma * 16 * 6e-8, "square in place"); }
  nearM(A * esMatrix44(), a, ma * 1e-6, "product with identity");
  esMatrix44 T = A;
  T.TransposeFull();
  M t;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) t.m[i][j] = a.m[j][i];
  nearM(T, t, 0, "full transpose");
  // 3x3 with affine rows
  M af = a;
  for (int i = 0; i < 3; i++) af.m[i][3] = 0;
  esMatrix44 F = of(af);
  F.Transpose();
  M ft = af;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ft.m[i][j] = af.m[j][i];
  nearM(F, ft, 0, "3x3 transpose");
  // rotation of a point ignores translation
  double p[4] = {(float)mag(s), (float)mag(s), (float)mag(s), (double)(float)s.irange(0, 1)};
  Vector4A16 r = of(af).RotatePoint(v4(p));
  for (int j = 0; j < 3; j++) {
    double x = 0, ax = 0;
    for (int i = 0; i < 3; i++) x += p[i] * af.m[i][j], ax += fabs(p[i] * af.m[i][j]);
    NEAR(r._arr[j], x, ax * 1e-6, "rotated point component " << j);
  }
  REQUIRE_EQ((float)r.W, 1.f, "W of rotated point");
  esMatrix44 rows3(A.r1(), A.r2(), A.r3()), rows4(A.r1(), A.r2(), A.r3(), A.r4());
  nearM(rows4, a, 0, "matrix of four rows");
  for (int j = 0; j < 4; j++) REQUIRE_EQ((float)rows3[1]._arr[j], (float)a.m[1][j], "matrix of three rows");
  s.nontrivial(ma > 0 && mb > 0);
  s.note([&](std::ostream &o) { o << showM(a) << " x " << showM(b); });
}
PBT_TEST(rotations, 40000, 1000000) {
  double q[4], q2[4];
  unitQuat(s, q);
  unitQuat(s, q2);
  M w = rotOf(q), w2 = rotOf(q2);
  esMatrix44 R(v4(q)), R2;
  nearM(R, w, 1e-6, "matrix of quaternion");
  R2.FromQuat(v4(q2));
  nearM(R2, w2, 1e-6, "matrix of second quaternion");
  std::ostringstream d;
  d << "(" << q[0] << ", " << q[1] << ", " << q[2] << ", " << q[3] << ")";
  auto quatIs = [&](const Vector4A16 &b, const double *qq, double tol, const char *what) {
    double dot = 0, err = 0;
    for (int i = 0; i < 4; i++) dot += b._arr[i] * qq[i];
    for (int i = 0; i < 4; i++) err = std::max(err, fabs(b._arr[i] - qq[i] * (dot < 0 ? -1 : 1)));
    REQUIRE(err <= tol, what << " " << (float)b.X << " " << (float)b.Y << " " << (float)b.Z << " " << (float)b.W << " vs " << d.str());
  };
  quatIs(R.ToQuat(), q, 3e-6, "quaternion of its matrix");
  quatIs(of(w).ToQuat(), q, 3e-6, "quaternion of reference matrix");
  // one after another
  double p[4] = {(float)mag(s), (float)mag(s), (float)mag(s), 1};
  double pm = 1 + fabs(p[0]) + fabs(p[1]) + fabs(p[2]);
  Vector4A16 once = (R * R2).RotatePoint(v4(p)), twice = R2.RotatePoint(R.RotatePoint(v4(p)));
  for (int i = 0; i < 3; i++) NEAR(once._arr[i], twice._arr[i], pm * 3e-6, "composed rotation at " << i);
  // inverse of a rotation is its transpose
  esMatrix44 T = R;
  T.Transpose();
  M wt = w;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) wt.m[i][j] = w.m[j][i];
  nearM(T, wt, 1e-6, "transposed rotation");
  nearM(-R, wt, 2e-6, "inverse rotation");
  nearM(R * -R, ident, 4e-6, "rotation with its inverse");
  const double cq[4] = {-q[0], -q[1], -q[2], q[3]};
  quatIs(T.ToQuat(), cq, 3e-6, "quaternion of transposed");
  s.nontrivial(fabs(q[3]) < 0.9999);
  if (q[3] == 0) s.label("half turn");
  s.note([&](std::ostream &o) { o << d.str(); });
}
// the epsilon of one thread is not that of another
PBT_TEST_THREADED(epsilons, 150, 3000) {
  float e0 = (float)ldexp(1, -(int)s.range(2, 20)), e1 = (float)ldexp(1, -(int)s.range(2, 20)), d = (float)ldexp(1, -(int)s.range(1, 22));
  bool first = s.coin();
  if (first) Vector4A16::SetEpsilon(e0);
  struct R { ~R() { Vector4A16::SetEpsilon(FLT_EPSILON); } } r;
  Vector4A16 a(0, 0, 0, 0), b(d, 0, 0, 0);
  bool before = false, after = false;
  std::thread([&] {
    before = a == b;
    Vector4A16::SetEpsilon(e1);
    after = a == b;
  }).join();
  REQUIRE_EQ(before, d <= FLT_EPSILON, "difference " << d << " in a new thread");
  REQUIRE_EQ(after, d <= e1, "difference " << d << " with epsilon " << e1);
  REQUIRE_EQ(a == b, d <= (first ? e0 : FLT_EPSILON), "difference " << d << ", epsilon " << (first ? e0 : FLT_EPSILON) << ", set to " << e1 << " by another thread");
  s.nontrivial(d <= e0 || d <= e1);
  s.note([&](std::ostream &o) { o << d << " with " << e0 << " and " << e1; });
}
PBT_TEST(transforms, 40000, 1000000) {
  double q[4], pos[4], sc[4];
  unitQuat(s, q);
  int signs = (int)s.upto(2); // all positive, all negative, any
  for (int i = 0; i < 3; i++) {
    pos[i] = (float)mag(s);
    sc[i] = (float)ldexp(1 + (double)s.upto(1000) / 1000, (int)(s.chance(1, 6) ? s.irange(-9, 12) : s.irange(-5, 5)));
    if (signs == 1 || (signs == 2 && s.coin())) sc[i] = -sc[i];
    if (s.chance(1, 5)) sc[i] = i ? sc[0] : 1;
  }
  if (s.chance(1, 4)) pos[0] = pos[1] = pos[2] = 0;
  pos[3] = 1, sc[3] = 0;
  int negs = 0;
  for (int i = 0; i < 3; i++) negs += sc[i] < 0;
  esMatrix44 A;
  A.Compose(v4(pos), v4(q), v4(sc));
  M w = rotOf(q);
  double ms = 0;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) w.m[i][j] *= sc[i], ms = std::max(ms, fabs(sc[i]));
  for (int i = 0; i < 4; i++) w.m[3][i] = pos[i];
  nearM(A, w, 2e-6 * ms, "composed transform");
  Vector4A16 dp, dq, ds;
  A.Decompose(dp, dq, ds);
  std::ostringstream d;
  d << "pos " << pos[0] << " " << pos[1] << " " << pos[2] << " quat " << q[0] << " " << q[1] << " " << q[2] << " " << q[3] << " scale " << sc[0] << " " << sc[1] << " " << sc[2];
  for (int i = 0; i < 4; i++) REQUIRE_EQ((float)dp._arr[i], (float)pos[i], "position of " << d.str());
  if (s.chance(1, 4)) { // the position is kept whole
    double hp[4] = {pos[0], pos[1], pos[2], (float)mag(s)};
    esMatrix44 H;
    Vector4A16 hd, hq, hs;
    H.Compose(v4(hp), v4(q), v4(sc));
    H.Decompose(hd, hq, hs);
    for (int i = 0; i < 4; i++) REQUIRE_EQ((float)hd._arr[i], (float)hp[i], "position with W " << hp[3] << " of " << d.str());
  }
  if (negs == 0 || negs == 3) {
    double dot = 0;
    for (int i = 0; i < 3; i++) NEAR(ds._arr[i], sc[i], 3e-6 * fabs(sc[i]), "scale " << i << " of " << d.str());
    for (int i = 0; i < 4; i++) dot += dq._arr[i] * q[i];
    for (int i = 0; i < 4; i++) NEAR(dq._arr[i], q[i] * (dot < 0 ? -1 : 1), 5e-6, "rotation " << i << " of " << d.str());
  }
  nearM(A, val(A), 0, "decomposed matrix");
  esMatrix44 B;
  B.Compose(dp, dq, ds);
  nearM(B, w, 1e-5 * ms, "composed again");
  s.label(negs ? "negative scale" : "positive scale");
  // inverse: the linear part
  esMatrix44 I = -A;
  M iv = val(I);
  double mi = 0;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    double x = w.m[j][i] / (sc[j] * sc[j]);
    NEAR(iv.m[i][j], x, 4e-6 / fabs(sc[j]), "inverse at " << i << "," << j << " of " << d.str());
    mi = std::max(mi, 1 / fabs(sc[j]));
  }
  for (int i = 0; i < 3; i++) REQUIRE_EQ(iv.m[i][3], 0.0, "W of inverse row");
  REQUIRE_EQ(iv.m[3][3], 1.0, "last of inverse");
  // its translation is pinned by the tests of the project (see KNOWN_FINDINGS)
  for (int i = 0; i < 3; i++) {
    double x = 0, ax = 0;
    for (int j = 0; j < 3; j++) { double e = w.m[j][i] / (sc[j] * sc[j]) * pos[j]; x -= e, ax += fabs(pos[j] / sc[j]); }
    NEAR(iv.m[3][i], x, ax * 1e-5, "translation " << i << " of inverse of " << d.str());
  }
  bool noRot = (q[0] == 0 && q[1] == 0 && q[2] == 0) || (pos[0] == 0 && pos[1] == 0 && pos[2] == 0);
  if (noRot) {
    M p = val(A * I), p2 = val(I * A);
    double pt = 0;
    for (int i = 0; i < 3; i++) pt = std::max(pt, fabs(pos[i]));
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
      NEAR(p.m[i][j], ident.m[i][j], 1e-5 * (1 + ms * mi + pt * (1 + mi)), "transform with its inverse at " << i << "," << j << " of " << d.str());
      NEAR(p2.m[i][j], ident.m[i][j], 1e-5 * (1 + ms * mi + pt * (1 + mi)), "inverse with its transform at " << i << "," << j << " of " << d.str());
    }
  }
  s.nontrivial(true);
  s.note([&](std::ostream &o) { o << d.str(); });
}
PBT_PROBE(inverse_translation) {
  double q[4] = {0, 0, 0.6f, 0.8f}, pos[4] = {1, 2, 3, 1}, sc[4] = {1, 1, 1, 0};
  esMatrix44 A;
  A.Compose(v4(pos), v4(q), v4(sc));
  nearM(A * -A, ident, 1e-4, "turned and moved transform with its inverse");
}
