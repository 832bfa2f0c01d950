// C32: small helpers, exceptions, list macros and the unit test macros.
#include "pbt.hpp"
#include "datas/except.hpp"
#include "datas/macroLoop.hpp"
#include "datas/string_view.hpp"
#include "datas/supercore.hpp"
#include "datas/tchar.hpp"
#include "datas/unit_testing.hpp"
#include "datas/vectors_simd.hpp"
#include <cmath>
#include <list>
using pbt::Src;
using std::string;

// ---------------------------------------------------------------- helpers
PBT_TEST(four_cc, 30000, 1000000) {
  char c[5]{};
  uint32_t want = 0;
  for (int i = 0; i < 4; i++) {
    unsigned b = s.chance(1, 3) ? s.upto(255) : s.chance(1, 2) ? s.range(32, 126) : s.pick({0, 0x7f, 0x80, 0xff});
    if (b > 127) s.nontrivial();
    c[i] = (char)b;
    want |= (uint32_t)b << 8 * i;
  }
  REQUIRE_EQ(CompileFourCC(c), want, "magic of bytes " << std::hex << want);
}
PBT_TEST(padding, 30000, 1000000) {
  size_t al = size_t(1) << s.upto(62), v = s.bits(s.range(1, 64));
  if (v & (al - 1)) s.nontrivial();
  size_t r = GetPadding(v, al);
  REQUIRE(r < al, "padding " << r << " of " << v << " is not below alignment " << al);
  REQUIRE_EQ((v + r) & (al - 1), 0u, "padded " << v << " by " << r << " for alignment " << al);
}
template <class T> static void pow2(Src &s) {
  T v = (T)s.bits(8 * sizeof(T));
  if (s.coin()) v = (T)((T)1 << s.upto(8 * sizeof(T) - 1));
  if (s.chance(1, 3)) v |= (T)((T)1 << s.upto(8 * sizeof(T) - 1));
  if (!v) v = 1;
  int n = __builtin_popcountll((uint64_t)v);
  if (n == 2) s.nontrivial();
  REQUIRE_EQ(IsPow2(v), n == 1, "power of two: " << (uint64_t)v);
}
PBT_TEST(power_of_two, 30000, 1000000) {
  switch (s.upto(3)) { case 0: pow2<uint8_t>(s); break; case 1: pow2<uint16_t>(s); break; case 2: pow2<uint32_t>(s); break; default: pow2<uint64_t>(s); }
}
template <size_t... I> static std::vector<size_t> fractions(std::index_sequence<I...>) {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
  return {GetFraction_t<I + 1>::VALUE...};
#pragma GCC diagnostic pop
}
PBT_TEST(fraction, 4000, 40000) {
  size_t n = s.range(1, 63);
  s.nontrivial();
  double want = 1.0 / (double)((1ULL << n) - 1);
  REQUIRE(std::fabs(GetFraction(n) - want) <= want * 1.2e-7, "fraction of " << n << " bits is " << GetFraction(n));
  n = s.range(1, 24);
  static const auto F = fractions(std::make_index_sequence<24>());
  uint32_t u = (uint32_t)F[n - 1];
  float f;
  memcpy(&f, &u, 4);
  want = 1.0 / (double)((1ULL << n) - 1);
  REQUIRE(std::fabs(f - want) <= want * 1e-6, "compile time fraction of " << n << " bits is " << f);
}
PBT_TEST(white_space, 30000, 1000000) {
  string t;
  for (size_t i = 0, n = s.size(12); i < n; i++) t += s.chance(3, 4) ? s.pick({' ', '\t', '\n', 'a'}) : (char)s.upto(255);
  bool nl = s.coin();
  auto blank = [](char c, bool nl) { return c == ' ' || c == '\t' || (nl && c == '\n'); };
  size_t b = 0, e = t.size(), bt = 0, et = t.size();
  while (b < t.size() && blank(t[b], nl)) b++;
  while (e > 0 && blank(t[e - 1], nl)) e--;
  while (bt < t.size() && blank(t[bt], false)) bt++;
  while (et > bt && blank(t[et - 1], false)) et--;
  if (b && e < t.size()) s.nontrivial();
  s.note([&](std::ostream &o) { o << pbt::show(t) << " newline=" << nl; });
  es::string_view v(t);
  auto x = es::SkipStartWhitespace(v, nl), y = es::SkipEndWhitespace(v, nl), z = es::TrimWhitespace(v);
  REQUIRE_EQ(string(x.begin(), x.end()), t.substr(b), "leading blanks skipped, new lines " << nl);
  REQUIRE_EQ(string(y.begin(), y.end()), t.substr(0, e), "trailing blanks skipped, new lines " << nl);
  REQUIRE_EQ(string(z.begin(), z.end()), t.substr(bt, et - bt), "trimmed");
  if (!t.empty()) REQUIRE(x.size() == 0 || (x.data() >= t.data() && x.data() + x.size() <= t.data() + t.size()), "result is not a part of the input");
}
PBT_TEST(hex_digits, 2000, 20000) {
  unsigned c = s.upto(255);
  s.nontrivial();
  int want = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
  REQUIRE(c < sizeof(atohLUT), "no entry for character " << c);
  int got = atohLUT[c];
  if (want >= 0) REQUIRE_EQ(got, want, "digit " << (char)c);
  else REQUIRE(got > 15, "character " << c << " is taken for digit " << got);
}
PBT_TEST(is_help, 20000, 200000) {
  string t = s.pick<string>({"-h", "-?", "/?", "--help"});
  bool want = s.chance(1, 3);
  if (!want) switch (s.upto(4)) {
    case 0: t += s.pick<string>({" ", "h", "e", string(1, 0), "=1"}); break;
    case 1: t.erase(s.upto(t.size() - 1), 1); break;
    case 2: t = s.pick<string>({"/h", "-help", "--h", "-H", "/help", "--?", "?", "", "help", "--HELP", "/", "-", "--help me"}); break;
    case 3: t[s.upto(t.size() - 1)] = (char)s.bits(8); break;
    default: t = s.pick<string>({"-", "/", " ", ""}) + t;
    }
  want = t == "-h" || t == "-?" || t == "/?" || t == "--help";
  string buf = t + s.pick<string>({"", "x"}); // views need no terminator
  s.nontrivial();
  s.note([&](std::ostream &o) { o << pbt::show(t); });
  REQUIRE_EQ(IsHelp(es::string_view(buf.data(), t.size())), want, "IsHelp of " << pbt::show(t));
}
PBT_TEST(is_end, 4000, 40000) {
  std::list<int> l;
  for (size_t i = 0, n = s.size(8); i < n; i++) l.push_back(i);
  size_t k = s.upto(l.size()), i = 0;
  if (k < l.size() && k) s.nontrivial();
  auto it = l.begin();
  for (; i < k; i++) ++it;
  REQUIRE_EQ(es::IsEnd(l, it), k == l.size(), "position " << k << " of " << l.size());
  int arr[5];
  size_t j = s.upto(5);
  REQUIRE_EQ(es::IsEnd(arr, arr + j), j == 5, "position " << j << " of 5");
}

// ---------------------------------------------------------------- exceptions
template <class E> static string caught(const E &e) {
  try { throw e; } catch (const std::runtime_error &r) { return r.what(); }
}
static string magicText(uint64_t v, size_t size) {
  std::vector<unsigned> b;
  for (size_t i = 0; i < size && i < 8; i++) b.push_back(v >> 8 * i & 255);
  while (!b.empty() && !b.back()) b.pop_back();
  bool al = true;
  for (auto c : b) al &= (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
  std::ostringstream o;
  for (auto c : b) if (al) o << (char)c; else o << "0x" << std::uppercase << std::hex << c << ' ';
  return o.str();
}
template <class T> static void magic(Src &s) {
  uint64_t v = 0;
  for (size_t i = 0; i < sizeof(T); i++) {
    unsigned b = s.chance(2, 3) ? s.pick({'A', 'z', '0', '9', 'k', 'D'}) : s.chance(1, 2) ? s.pick({0, 0, 32, 0x80, 0xff, 95, 1}) : s.upto(255);
    v |= (uint64_t)b << 8 * i;
  }
  size_t sz = s.coin() ? sizeof(T) : s.range(1, sizeof(T));
  string want = "Invalid format: " + magicText((uint64_t)(size_t)(T)v, sz), got = sz == sizeof(T) && s.coin() ? caught(es::InvalidHeaderError((T)v)) : caught(es::InvalidHeaderError((T)v, sz));
  if (want.size() > 18) s.nontrivial();
  s.note([&](std::ostream &o) { o << std::hex << v << " of " << sz << " bytes"; });
  REQUIRE_EQ(got, want, "error of magic " << std::hex << v << " of " << sz << " bytes");
}
PBT_TEST(header_errors, 40000, 1000000) {
  switch (s.upto(4)) { case 0: magic<uint16_t>(s); break; case 1: case 2: magic<uint32_t>(s); break; case 3: magic<int32_t>(s); break; default: magic<uint64_t>(s); }
}
PBT_TEST(error_texts, 10000, 200000) {
  string n = s.chance(1, 2) ? s.ident(12) : s.bytes(s.size(12));
  for (auto &c : n) if (!c) c = '0';
  string padded = n + "tail"; // views need not be terminated
  es::string_view v(padded.data(), n.size());
  if (!n.empty()) s.nontrivial();
  uint64_t ver = s.bits(s.range(1, 64));
  struct { string got; const char *lead; string tail; } t[] = {
      {caught(es::FileNotFoundError(v)), "Couldn't open file: ", n}, {caught(es::FileInvalidAccessError(v)), "Couldn't access file: ", n},
      {caught(es::InvalidHeaderError(v)), "Invalid format: ", n}, {caught(es::InvalidVersionError(ver)), "Invalid version: ", std::to_string(ver)}};
  for (auto &k : t) REQUIRE_EQ(k.got, k.lead + k.tail, "text of error");
  string all[] = {caught(es::FileNotFoundError()), caught(es::FileInvalidAccessError()), caught(es::InvalidHeaderError()), caught(es::InvalidVersionError()), caught(es::UnexpectedEOS())};
  for (auto &a : all) for (auto &b : all) REQUIRE(!a.empty() && (&a == &b || a != b), "errors cannot be told apart: " << a);
}

// ---------------------------------------------------------------- list macros
#define L1 1
#define L2 L1, 2
#define L3 L2, 3
#define L4 L3, 4
#define L5 L4, 5
#define L6 L5, 6
#define L7 L6, 7
#define L8 L7, 8
#define L9 L8, 9
#include "c32_lists.inc"
#define ADD(x) r.push_back(x);
struct Row { int id; int value; };
#define ADDID(cls, num, x) Row{cls + num, x},
static void lists(size_t n, std::vector<int> &r, size_t &count, std::vector<Row> &rows) {
  switch (n) {
#define CASE(N) case N: { count = VA_NARGS(L##N); StaticFor(ADD, L##N) Row q[] = {StaticForArgID(ADDID, 1000, L##N)}; rows.assign(std::begin(q), std::end(q)); break; }
    C32_CASES
  }
}
PBT_TEST(list_macros, 400, 4000) {
  size_t n = s.range(1, 89), count = 0;
  if (n > 1) s.nontrivial();
  std::vector<int> r;
  std::vector<Row> rows;
  lists(n, r, count, rows);
  REQUIRE_EQ(count, n, "number of arguments");
  REQUIRE_EQ(r.size(), n, "items visited");
  REQUIRE_EQ(rows.size(), n, "items visited with their index");
  for (size_t i = 0; i < n; i++) {
    REQUIRE_EQ(r[i], (int)i + 1, "item " << i << " of " << n);
    REQUIRE(rows[i].id == 1000 + (int)i && rows[i].value == (int)i + 1, "item " << i << " of " << n << " visited with index " << rows[i].id - 1000);
  }
}

// ---------------------------------------------------------------- test macros
static string logged;
static void sink(const char *c) { logged += c; }
static int a, b, c;
static int sideA, sideB;
static int A() { sideA++; return a; }
static int B() { sideB++; return b; }
struct Odd { int v; bool operator!=(const Odd &o) const { return v != o.v; } bool operator==(const Odd &o) const { return v == o.v; } bool operator<(const Odd &o) const { return v < o.v; } bool operator<=(const Odd &o) const { return v <= o.v; } bool operator>(const Odd &o) const { return v > o.v; } bool operator>=(const Odd &o) const { return v >= o.v; } };
static Odd oa() { return {a}; }
static Odd ob() { return {b}; }

#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wparentheses"
#define UNARY(M)                                                                                                                                                              \
  [] { M(a); return 0; }, [] { M(a == b); return 0; }, [] { M(a < b && b); return 0; }, [] { M(a || b); return 0; }, [] { M(a & b); return 0; }, [] { M(a ? b : c); return 0; }, \
      [] { M(a + b); return 0; }, [] { M((a) - (b)); return 0; }, [] { M(a != b == c); return 0; }, [] { M(!a); return 0; }, [] { M(a | b); return 0; }, [] { M(a >= 0); return 0; }
#define BINARY(M)                                                                                                                                                       \
  [] { M(a, b); return 0; }, [] { M(a & b, c); return 0; }, [] { M(c, a & b); return 0; }, [] { M(a == b, c); return 0; }, [] { M(a ? b : c, 1); return 0; },             \
      [] { M(1, a ? b : c); return 0; }, [] { M(a + b, b - c); return 0; }, [] { M(a | b, b ^ c); return 0; }, [] { M(a || b, c); return 0; }, [] { M(a, b == c); return 0; }, \
      [] { M(a < b, c); return 0; }, [] { M(oa(), ob()); return 0; }
static bool unary(int f) {
  switch (f) {
  case 0: return a; case 1: return a == b; case 2: return (a < b) && b; case 3: return a || b; case 4: return (a & b) != 0; case 5: return a ? b : c; case 6: return a + b; case 7: return a - b;
  case 8: return ((a != b) ? 1 : 0) == c; case 9: return !a; case 10: return (a | b) != 0; default: return a >= 0;
  }
}
static std::pair<int, int> operands(int f) {
  switch (f) {
  case 0: return {a, b}; case 1: return {(a & b), c}; case 2: return {c, (a & b)}; case 3: return {(a == b), c}; case 4: return {(a ? b : c), 1}; case 5: return {1, (a ? b : c)};
  case 6: return {a + b, b - c}; case 7: return {(a | b), (b ^ c)}; case 8: return {(a || b), c}; case 9: return {a, (b == c)}; case 10: return {(a < b), c}; default: return {a, b};
  }
}
static const char *const UT[] = {"a", "a == b", "a < b && b", "a || b", "a & b", "a ? b : c", "a + b", "(a) - (b)", "a != b == c", "!a", "a | b", "a >= 0"};
static const char *const BT[][2] = {{"a", "b"}, {"a & b", "c"}, {"c", "a & b"}, {"a == b", "c"}, {"a ? b : c", "1"}, {"1", "a ? b : c"}, {"a + b", "b - c"}, {"a | b", "b ^ c"}, {"a || b", "c"}, {"a", "b == c"}, {"a < b", "c"}, {"oa()", "ob()"}};
typedef int (*Fn)();
static const Fn U[2][12] = {{UNARY(TEST_CHECK)}, {UNARY(TEST_NOT_CHECK)}};
static const Fn BI[6][12] = {{BINARY(TEST_EQUAL)}, {BINARY(TEST_NOT_EQUAL)}, {BINARY(TEST_GT)}, {BINARY(TEST_LT)}, {BINARY(TEST_GT_EQ)}, {BINARY(TEST_LE_EQ)}};
#pragma GCC diagnostic pop

static void setup(Src &s) {
  static bool once = false;
  if (!once) { printer.AddPrinterFunction(sink, false); once = true; }
  a = s.irange(-2, 3), b = s.irange(-2, 3), c = s.irange(-1, 2);
  s.note([&](std::ostream &o) { o << "a=" << a << " b=" << b << " c=" << c; });
  logged.clear();
}
PBT_TEST(checks, 40000, 1000000) {
  setup(s);
  int f = s.upto(11);
  bool inv = s.coin();
  bool want = unary(f) != inv;
  if (f) s.nontrivial();
  int r = U[inv][f]();
  REQUIRE_EQ(r, want ? 0 : 1, (inv ? "TEST_NOT_CHECK(" : "TEST_CHECK(") << UT[f] << ") with a=" << a << " b=" << b << " c=" << c);
  REQUIRE_EQ(logged.empty(), want, "report of the check");
  if (!want) REQUIRE(logged.find(UT[f]) != string::npos && logged.find("c32_basics.cpp") != string::npos, "report does not tell the check: " << logged);
}
PBT_TEST(comparisons, 40000, 1000000) {
  setup(s);
  int f = s.upto(11), k = s.upto(5);
  auto o = operands(f);
  int x = o.first, y = o.second;
  bool want = k == 0 ? x == y : k == 1 ? x != y : k == 2 ? x > y : k == 3 ? x < y : k == 4 ? x >= y : x <= y;
  if (f) s.nontrivial();
  static const char *const M[] = {"EQUAL", "NOT_EQUAL", "GT", "LT", "GT_EQ", "LE_EQ"};
  int r = BI[k][f]();
  REQUIRE_EQ(r, want ? 0 : 1, "TEST_" << M[k] << "(" << BT[f][0] << ", " << BT[f][1] << ") with a=" << a << " b=" << b << " c=" << c);
  REQUIRE_EQ(logged.empty(), want, "report of the check");
  if (want) return;
  static const char *const OP[] = {" != ", " == ", " <= ", " >= ", " < ", " > "};
  string e1 = BT[f][0], e2 = BT[f][1];
  REQUIRE(logged.find(e1 + OP[k] + e2) != string::npos, "report does not tell the check: " << logged);
  string v = f == 11 ? e1 + OP[k] + e2 : std::to_string(x) + OP[k] + std::to_string(y);
  REQUIRE(logged.find(", " + v) != string::npos, "report does not tell the values " << v << ": " << logged);
}
// values that need not be ordered: not-a-number and vectors that are smaller in some lanes only
static double da, db;
static Vector4A16 va, vb;
#define PARTIAL(M) [] { M(da, db); return 0; }, [] { M(va, vb); return 0; }
static const Fn PA[6][2] = {{PARTIAL(TEST_EQUAL)}, {PARTIAL(TEST_NOT_EQUAL)}, {PARTIAL(TEST_GT)}, {PARTIAL(TEST_LT)}, {PARTIAL(TEST_GT_EQ)}, {PARTIAL(TEST_LE_EQ)}};
PBT_TEST(partial_orders, 20000, 400000) {
  setup(s);
  auto num = [&]() -> double { switch (s.upto(5)) { case 0: return NAN; case 1: return s.coin() ? INFINITY : -INFINITY; case 2: return s.coin() ? 0. : -0.; default: return s.irange(-2, 2); } };
  bool vec = s.chance(1, 3);
  int k = s.upto(5);
  bool want;
  if (vec) {
    float x[4], y[4];
    for (int i = 0; i < 4; i++) x[i] = s.irange(-1, 1), y[i] = s.coin() ? x[i] : s.irange(-1, 1);
    va = Vector4A16(x[0], x[1], x[2], x[3]), vb = Vector4A16(y[0], y[1], y[2], y[3]);
    bool eq = true, lt = true, gt = true;
    for (int i = 0; i < 4; i++) eq &= x[i] == y[i], lt &= x[i] < y[i], gt &= x[i] > y[i];
    want = k == 0 ? eq : k == 1 ? !eq : k == 2 ? gt : k == 3 ? lt : k == 4 ? gt || eq : lt || eq;
    if (!eq && !lt && !gt) s.nontrivial();
    s.note([&](std::ostream &o) { for (float f : x) o << f << ' '; o << "and"; for (float f : y) o << ' ' << f; });
  } else {
    da = num(), db = num();
    want = k == 0 ? da == db : k == 1 ? da != db : k == 2 ? da > db : k == 3 ? da < db : k == 4 ? da >= db : da <= db;
    if (da != da || db != db) s.nontrivial();
    s.note([&](std::ostream &o) { o << da << " and " << db; });
  }
  static const char *const M[] = {"EQUAL", "NOT_EQUAL", "GT", "LT", "GT_EQ", "LE_EQ"};
  int r = PA[k][vec]();
  REQUIRE_EQ(r, want ? 0 : 1, "TEST_" << M[k] << " of " << (vec ? "vectors" : "numbers"));
  REQUIRE_EQ(logged.empty(), want, "report of the check");
  if (!want) REQUIRE(logged.find(vec ? "va" : "da") != string::npos && logged.find(vec ? "vb" : "db") != string::npos, "report does not tell the check: " << logged);
}
static int thrown;
static void maybe() {
  switch (thrown) {
  case 1: throw std::runtime_error("r");
  case 2: throw std::logic_error("l");
  case 3: throw es::InvalidVersionError(3);
  case 4: throw 5;
  case 5: throw std::out_of_range("o");
  }
}
static int throwRuntime() { TEST_THROW(std::runtime_error, maybe();) return 0; }
static int throwExcept() { TEST_THROW(std::exception, int z = 1, y = z; (void)y; maybe();) return 0; }
static int throwInt() { TEST_THROW(int, maybe();) return 0; }
static int throwRange() { TEST_THROW(std::out_of_range, maybe();) return 0; }
PBT_TEST(throws, 10000, 100000) {
  setup(s);
  thrown = s.upto(5);
  int k = s.upto(3);
  s.nontrivial();
  bool want = k == 0 ? thrown == 1 || thrown == 3 : k == 1 ? thrown && thrown != 4 : k == 2 ? thrown == 4 : thrown == 5;
  int r = k == 0 ? throwRuntime() : k == 1 ? throwExcept() : k == 2 ? throwInt() : throwRange();
  REQUIRE_EQ(r, want ? 0 : 1, "expected exception " << k << ", thrown " << thrown);
  REQUIRE_EQ(logged.empty(), want, "report of the check");
}
static int results[6];
static std::vector<int> called;
template <int I> static int one(int) { called.push_back(I); return results[I]; }
static int zero() { called.push_back(0); return results[0]; }
static int cases(int k) {
  int r = -1;
  if (k == 0) { TEST_CASES(r, TEST_FUNC(zero)); }
  else if (k == 1) { TEST_CASES(r, TEST_FUNC(zero), TEST_FUNC(one<1>, 4)); }
  else if (k == 2) { TEST_CASES(r, TEST_FUNC(zero), TEST_FUNC(one<1>, 4), TEST_FUNC(one<2>, a)); }
  else { TEST_CASES(r, TEST_FUNC(zero), TEST_FUNC(one<1>, 1), TEST_FUNC(one<2>, 2), TEST_FUNC(one<3>, 3), TEST_FUNC(one<4>, 4), TEST_FUNC(one<5>, 5)); }
  return r;
}
PBT_TEST(case_lists, 10000, 100000) {
  setup(s);
  int k = s.upto(3), n = k == 3 ? 6 : k + 1, fails = 0;
  for (int i = 0; i < n; i++) fails += results[i] = s.coin();
  if (fails) s.nontrivial();
  called.clear();
  int r = cases(k);
  REQUIRE_EQ(r, fails, "number of failed cases");
  REQUIRE_EQ(called.size(), (size_t)n, "cases called");
  for (int i = 0; i < n; i++) REQUIRE_EQ(called[i], i, "order of cases");
  REQUIRE(logged.find("Testing " + std::to_string(n) + " cases.") != string::npos, "number of cases not told: " << logged);
  REQUIRE(logged.find("Testing result: " + std::to_string(n - fails) + " out of " + std::to_string(n)) != string::npos, "result not told: " << logged);
  for (int i = 0; i < n; i++) {
    string nm = i ? "Method one<" + std::to_string(i) + "> failed!" : "Method zero failed!";
    REQUIRE_EQ(logged.find(nm) != string::npos, results[i] != 0, "case " << i << " named as failed: " << logged);
  }
}
