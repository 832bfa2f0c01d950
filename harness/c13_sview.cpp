// C13: string views against the standard library, over the same characters.
#include "pbt.hpp"
#include "datas/supercore.hpp"
#include "datas/string_view.hpp"
#include <memory>
#include <sstream>
#include <sys/mman.h>
using pbt::Src;

template <class C> using Str = std::basic_string<C>;
template <class C> using View = es::basic_string_view<C>;

template <class C> static Str<C> text(Src &s, size_t max, bool zeros = true) {
  static const uint32_t al[] = {'a', 'b', ' ', 'a', 'b', 'c', '\t', '\n', 'a', 'b', 'z', 0x80, 0xff, 0x7f, 0};
  Str<C> r;
  size_t n = s.size(max);
  size_t lim = s.pick({2, 6, 10, 14});
  for (size_t i = 0; i < n; i++) {
    uint32_t c = al[s.upto(lim)];
    if (!c && !zeros) c = 'a';
    if (sizeof(C) > 1 && s.chance(1, 12)) c = sizeof(C) == 2 ? 0xd83d : 0x1f600;
    r += (C)c;
  }
  return r;
}
// characters of a view between others that continue them
template <class C> struct Held {
  std::unique_ptr<C[]> mem;
  Str<C> str;
  View<C> view;
};
template <class C> static void hold(Src &s, Held<C> &h, const Str<C> &str) {
  h.str = str;
  if (str.empty() && s.chance(1, 3)) return; // no storage at all
  size_t pre = 0, post = 0;
  if (s.coin()) pre = s.upto(3), post = s.upto(3);
  h.mem.reset(new C[pre + str.size() + post]);
  for (size_t i = 0; i < pre; i++) h.mem[i] = str.empty() ? 'a' : str[s.upto(str.size() - 1)];
  for (size_t i = 0; i < str.size(); i++) h.mem[pre + i] = str[i];
  for (size_t i = 0; i < post; i++) h.mem[pre + str.size() + i] = str.empty() ? 'a' : str[s.upto(str.size() - 1)];
  const C *b = h.mem.get() + pre;
  switch (s.upto(2)) {
  case 0: h.view = View<C>(b, str.size()); break;
  case 1: h.view = View<C>(b, b + str.size()); break;
  default: { // cut out of the longer one
    View<C> v(h.mem.get(), pre + str.size() + post);
    v.remove_prefix(pre);
    v.remove_suffix(post);
    h.view = v;
  }
  }
}
// a piece of the same characters: starting where the other starts, ending where it ends, or inside it
template <class C> static void piece(Src &s, Held<C> &n, const Held<C> &h) {
  size_t z = h.str.size(), a = s.pick({(size_t)0, (size_t)0, (size_t)1, z / 2}), c = s.chance(1, 4) ? z : s.upto(z);
  a = std::min(a, z), c = std::min(c, z - a);
  n.mem.reset();
  n.str = h.str.substr(a, c);
  n.view = View<C>(h.view.data() + a, c);
}
static size_t position(Src &s, size_t n) {
  switch (s.upto(5)) {
  case 0: return 0;
  case 1: return n + s.upto(2);
  case 2: return s.pick({(size_t)-1, (size_t)-2, (size_t)-3, (size_t)1 << 63});
  default: return s.upto(n + 1);
  }
}
static int sgn(int v) { return (v > 0) - (v < 0); }
template <class C> static std::string sh(const Str<C> &t) {
  std::string r = "'";
  for (C c : t) { char b[16]; if (c >= ' ' && c < 127) snprintf(b, 16, "%c", (char)c); else snprintf(b, 16, "\\x%x", (unsigned)(typename std::make_unsigned<C>::type)c); r += b; }
  return r + "'";
}
template <> std::string sh(const Str<char16_t> &t) { return sh(Str<wchar_t>(t.begin(), t.end())); }
template <> std::string sh(const Str<char32_t> &t) { return sh(Str<wchar_t>(t.begin(), t.end())); }

struct Threw { bool t = false; };
template <class F> static bool throwsRange(F f) {
  try { f(); } catch (const std::out_of_range &) { return true; }
  return false;
}
// needle: often a piece of the haystack, possibly changed
template <class C> static Str<C> needle(Src &s, const Str<C> &h) {
  if (h.empty() || s.chance(1, 3)) return text<C>(s, 5);
  size_t a = s.upto(h.size() - 1), n = s.upto(std::min<size_t>(h.size() - a, 6));
  Str<C> r = h.substr(a, n);
  if (!r.empty() && s.chance(1, 3)) r[s.upto(r.size() - 1)] = 'b';
  if (s.chance(1, 6)) r += (C)'a';
  return r;
}

template <class C> static void search(Src &s) {
  Held<C> h, n;
  hold<C>(s, h, text<C>(s, s.chance(1, 20) ? 400 : 24));
  hold<C>(s, n, needle<C>(s, h.str));
  size_t pos = position(s, h.str.size());
  bool dflt = s.chance(1, 3);
  size_t how = s.upto(3); // view, char, pointer + count, zero-terminated
  C ch = n.str.empty() ? (C)'a' : n.str[0];
  Str<C> z(n.str.c_str()); // up to the first zero
  size_t cnt = n.str.empty() ? 0 : s.upto(n.str.size());
  if (h.view.data() && s.chance(1, 6)) {
    piece(s, n, h), z = n.str.c_str(), cnt = s.upto(n.str.size());
    if (!n.str.empty()) ch = n.str[0];
  }
  const C *raw = n.view.data() ? n.view.data() : n.str.c_str(); // counted, nothing ends it
  size_t kind = s.upto(5);
  static const char *const names[] = {"find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"};
  s.label(names[kind]);
  size_t want = 0, got = 0;
#define CALL(f)                                                                                                        \
  if (how == 0) got = dflt ? h.view.f(n.view) : h.view.f(n.view, pos), want = dflt ? h.str.f(n.str) : h.str.f(n.str, pos); \
  else if (how == 1) got = dflt ? h.view.f(ch) : h.view.f(ch, pos), want = dflt ? h.str.f(ch) : h.str.f(ch, pos);           \
  else if (how == 2) got = h.view.f(raw, pos, cnt), want = h.str.f(raw, pos, cnt);                        \
  else got = dflt ? h.view.f(z.c_str()) : h.view.f(z.c_str(), pos), want = dflt ? h.str.f(z.c_str()) : h.str.f(z.c_str(), pos);
  switch (kind) {
  case 0: CALL(find) break;
  case 1: CALL(rfind) break;
  case 2: CALL(find_first_of) break;
  case 3: CALL(find_last_of) break;
  case 4: CALL(find_first_not_of) break;
  default: CALL(find_last_not_of) break;
  }
#undef CALL
  REQUIRE((int64_t)want == (int64_t)got, sh(h.str) << "." << names[kind] << "(" << (how == 1 ? sh(Str<C>(1, ch)) : how == 2 ? sh(n.str.substr(0, cnt)) : how == 3 ? sh(z) : sh(n.str)) << ", " << (dflt && how != 2 ? std::string("default") : std::to_string((int64_t)pos)) << ") = " << (int64_t)got << " not " << (int64_t)want);
  s.nontrivial(h.str.size() >= 2 && !n.str.empty());
  s.note([&](std::ostream &o) { o << sh(h.str) << "." << names[kind] << " " << sh(n.str) << " = " << (int64_t)got; });
}

template <class C> static void slices(Src &s) {
  Held<C> h, n;
  hold<C>(s, h, text<C>(s, s.chance(1, 20) ? 400 : 24));
  hold<C>(s, n, s.coin() ? needle<C>(s, h.str) : s.coin() ? h.str : text<C>(s, 24));
  if (h.view.data() && s.chance(1, 5)) piece(s, n, h), s.label("one buffer");
  const C *raw = n.view.data() ? n.view.data() : n.str.c_str(); // counted, nothing ends it
  size_t p1 = position(s, h.str.size()), c1 = position(s, h.str.size()), p2 = position(s, n.str.size()), c2 = position(s, n.str.size());
  Str<C> z(n.str.c_str());
  const View<C> &v = h.view;
  size_t op = s.upto(9);
  std::string what = sh(h.str) + " " + sh(n.str) + " " + std::to_string((int64_t)p1) + "," + std::to_string((int64_t)c1) + " " + std::to_string((int64_t)p2) + "," + std::to_string((int64_t)c2);
  s.nontrivial(h.str.size() >= 2);
  s.note([&](std::ostream &o) { o << "op " << op << " " << what; });
  switch (op) {
  case 0: { // substr
    s.label("substr");
    bool wt = p1 > h.str.size();
    View<C> r;
    bool gt = throwsRange([&] { r = s.chance(1, 4) ? v.substr(p1) : v.substr(p1, c1); (void)r; });
    REQUIRE_EQ(gt, wt, "substr throws " << what);
    if (!wt) {
      r = v.substr(p1, c1);
      REQUIRE(r.to_string() == h.str.substr(p1, c1), "substr " << what << " " << sh(r.to_string()));
      REQUIRE(r.empty() || r.data() == v.data() + p1, "substr is no slice " << what);
      REQUIRE(v.substr().to_string() == h.str, "substr() " << what);
      REQUIRE(v.substr(p1).to_string() == h.str.substr(p1), "substr(pos) " << what);
    }
    break;
  }
  case 1: { // copy
    s.label("copy");
    std::vector<C> a(h.str.size() + 8, (C)'#'), b(a);
    size_t gr = 0, wr = 0;
    bool dc = c1 == (size_t)-1 && s.coin(), dp = p1 == 0 && s.coin();
    bool gt = throwsRange([&] { gr = dc ? v.copy(a.data() + 4) : dp ? v.copy(a.data() + 4, c1) : v.copy(a.data() + 4, c1, p1); });
    if (dc) p1 = 0;
    bool wt = throwsRange([&] { wr = h.str.copy(b.data() + 4, c1, p1); });
    REQUIRE_EQ(gt, wt, "copy throws " << what);
    REQUIRE_EQ(gr, wr, "copied count " << what);
    REQUIRE(a == b, "copied characters " << what << " " << sh(Str<C>(a.data(), a.size())));
    break;
  }
  case 2: { // at, [], front, back, iteration
    s.label("access");
    REQUIRE_EQ(v.size(), h.str.size(), what);
    REQUIRE_EQ(v.length(), h.str.size(), what);
    REQUIRE_EQ(v.empty(), h.str.empty(), what);
    REQUIRE_EQ(throwsRange([&] { (void)v.at(p1); }), p1 >= h.str.size(), "at throws " << what);
    if (p1 < h.str.size()) REQUIRE(v.at(p1) == h.str[p1] && v[p1] == h.str[p1], what);
    if (!h.str.empty()) REQUIRE(v.front() == h.str.front() && v.back() == h.str.back(), what);
    REQUIRE(Str<C>(v.begin(), v.end()) == h.str && Str<C>(v.cbegin(), v.cend()) == h.str, "iteration " << what);
    REQUIRE(v.data() == v.c_str() && v.data() == v.begin(), what);
    break;
  }
  case 3: { // conversions
    s.label("conversions");
    REQUIRE(v.to_string() == h.str, what);
    Str<C> conv = v;
    REQUIRE(conv == h.str, what);
    REQUIRE(View<C>(h.str).to_string() == h.str, what);
    REQUIRE(View<C>(h.str.c_str()).to_string() == Str<C>(h.str.c_str()), "from zero-terminated " << what);
    View<C> copy(v), other(n.view);
    copy = other;
    REQUIRE(copy.to_string() == n.str, "assignment " << what);
    copy = v;
    using std::swap;
    s.coin() ? swap(copy, other) : copy.swap(other);
    REQUIRE(copy.to_string() == n.str && other.to_string() == h.str, "swap " << what);
    break;
  }
  case 4: { // modifiers
    s.label("modifiers");
    View<C> x = v;
    Str<C> m = h.str;
    size_t a = s.upto(m.size());
    x.remove_prefix(a), m.erase(0, a);
    REQUIRE(x.to_string() == m, "remove_prefix " << what);
    size_t b = s.upto(m.size());
    x.remove_suffix(b), m.resize(m.size() - b);
    REQUIRE(x.to_string() == m, "remove_suffix " << what);
    size_t d = s.upto(m.size());
    x.resize(d), m.resize(d);
    REQUIRE(x.to_string() == m, "resize " << what);
    break;
  }
  case 5: { // three-way comparisons
    s.label("compare");
    REQUIRE_EQ(sgn(v.compare(n.view)), sgn(h.str.compare(n.str)), "compare " << what);
    REQUIRE_EQ(sgn(v.compare(z.c_str())), sgn(h.str.compare(z.c_str())), "compare c " << what);
    size_t k = s.upto(n.str.size());
    int g = 0, w = 0;
    bool gt, wt;
    switch (s.upto(3)) {
    case 0: gt = throwsRange([&] { g = v.compare(p1, c1, n.view); }), wt = throwsRange([&] { w = h.str.compare(p1, c1, n.str); }); break;
    case 1: gt = throwsRange([&] { g = v.compare(p1, c1, n.view, p2, c2); }), wt = throwsRange([&] { w = h.str.compare(p1, c1, n.str, p2, c2); }); break;
    case 2: gt = throwsRange([&] { g = v.compare(p1, c1, z.c_str()); }), wt = throwsRange([&] { w = h.str.compare(p1, c1, z.c_str()); }); break;
    default: gt = throwsRange([&] { g = v.compare(p1, c1, raw, k); }), wt = throwsRange([&] { w = h.str.compare(p1, c1, raw, k); }); break;
    }
    REQUIRE_EQ(gt, wt, "compare of a part throws " << what);
    if (!wt) REQUIRE_EQ(sgn(g), sgn(w), "compare of a part " << what);
    break;
  }
  case 6:
  case 7: { // operators
    s.label("operators");
    int w = sgn(h.str.compare(n.str)), wz = sgn(h.str.compare(z));
#define OP(op)                                                                                                         \
  REQUIRE_EQ(v op n.view, w op 0, #op " view " << what);                                                               \
  REQUIRE_EQ(v op n.str, w op 0, #op " string " << what);                                                              \
  REQUIRE_EQ(h.str op n.view, w op 0, "string " #op " " << what);                                                      \
  REQUIRE_EQ(v op z.c_str(), wz op 0, #op " zero-terminated " << what);                                                \
  REQUIRE_EQ(z.c_str() op v, 0 op wz, "zero-terminated " #op " " << what);
    OP(==) OP(!=) OP(<) OP(>) OP(<=) OP(>=)
#undef OP
    break;
  }
  default: { // trimming
    s.label("trim");
    bool nl = s.coin();
    auto blank = [&](C c) { return c == ' ' || c == '\t' || (nl && c == '\n'); };
    Str<C> f = h.str, e = h.str, b;
    while (!f.empty() && blank(f[0])) f.erase(0, 1);
    while (!e.empty() && blank(e.back())) e.pop_back();
    REQUIRE(es::SkipStartWhitespace(v, nl).to_string() == f, "SkipStartWhitespace " << what);
    REQUIRE(es::SkipEndWhitespace(v, nl).to_string() == e, "SkipEndWhitespace " << what);
    nl = false;
    b = h.str;
    while (!b.empty() && blank(b[0])) b.erase(0, 1);
    while (!b.empty() && blank(b.back())) b.pop_back();
    REQUIRE(es::TrimWhitespace(v).to_string() == b, "TrimWhitespace " << what);
  }
  }
}

// long repetitive texts: needles that nearly match again and again, differences found late only
template <class C> static void longTexts(Src &s) {
  size_t period = s.pick({1, 2, 3, 5, 7, 13});
  Str<C> unit;
  for (size_t i = 0; i < period; i++) unit += (C)s.pick({'a' + 0, 'a' + 0, 'b' + 0, 'c' + 0, ' ' + 0, 0xe9});
  size_t n = s.chance(1, 12) ? s.upto(140000) : s.chance(1, 3) ? s.upto(9000) : s.upto(300);
  Held<C> h, e;
  Str<C> t;
  t.reserve(n);
  while (t.size() < n) t += unit;
  t.resize(n);
  for (size_t k = s.upto(3); k && n; k--) t[s.coin() ? n - 1 - s.upto(std::min<size_t>(n - 1, 20)) : s.upto(n - 1)] = (C)s.pick({'a' + 0, 'b' + 0, 'c' + 0, 'd' + 0, 0});
  hold<C>(s, h, t);
  size_t nn = s.upto(std::min<size_t>(n, s.coin() ? 12 : 70)), from = nn == n ? 0 : s.coin() ? n - nn - s.upto(std::min<size_t>(n - nn, 30)) : s.upto(n - nn);
  Str<C> nd = s.chance(1, 4) ? unit : t.substr(from, nn);
  if (!nd.empty() && s.chance(1, 3)) nd[s.coin() ? nd.size() - 1 : s.upto(nd.size() - 1)] = (C)s.pick({'a', 'b', 'd'});
  Held<C> nh;
  hold<C>(s, nh, nd);
  const View<C> &v = h.view;
  auto what = [&] {
    Str<C> last = t.size() > 120 ? t.substr(t.size() - 120) : t;
    return " of " + std::to_string(n) + " characters (period " + std::to_string(period) + " ending in " + sh(last) + ", needle " + sh(nd) + ")";
  };
  size_t pos = position(s, n);
#define EQ(f, ...) { size_t g = v.f(nh.view, ##__VA_ARGS__), w = t.f(nd, ##__VA_ARGS__); REQUIRE(g == w, #f << what() << ": " << (int64_t)g << " not " << (int64_t)w); }
  EQ(find) EQ(find, pos) EQ(rfind) EQ(rfind, pos)
  EQ(find_first_not_of) EQ(find_last_not_of) EQ(find_first_of, pos) EQ(find_last_of, pos)
#undef EQ
  C ch = (C)'d';
  REQUIRE(v.find(ch) == t.find(ch) && v.rfind(ch) == t.rfind(ch), "character" << what());
  // the same text but for one place
  Str<C> u = t;
  if (n && s.chance(3, 4)) u[s.coin() ? n - 1 : s.upto(n - 1)] = (C)s.pick({'a' + 0, 'b' + 0, 0x90});
  if (s.chance(1, 4)) s.coin() || u.empty() ? u.push_back('a') : u.pop_back();
  hold<C>(s, e, u);
  int w = sgn(t.compare(u));
  REQUIRE(sgn(v.compare(e.view)) == w && sgn(e.view.compare(v)) == -w, "compare" << what());
  REQUIRE((v == e.view) == (w == 0) && (v != e.view) == (w != 0) && (v < e.view) == (w < 0) && (v > e.view) == (w > 0), "operators" << what());
  REQUIRE((v == u) == (w == 0) && (u == v) == (w == 0), "operators with a string" << what());
  if (t.find((C)0) == Str<C>::npos && u.find((C)0) == Str<C>::npos) {
    REQUIRE(View<C>(u.c_str()).size() == u.size(), "length of a zero-terminated text" << what());
    REQUIRE(sgn(v.compare(u.c_str())) == w && (v == u.c_str()) == (w == 0), "compare with a zero-terminated text" << what());
  }
  size_t cut = s.upto(n);
  REQUIRE(v.substr(cut).to_string() == t.substr(cut) && v.substr(0, cut).to_string() == t.substr(0, cut), "substr" << what());
  std::vector<C> cp(n + 2, (C)'#');
  REQUIRE(v.copy(cp.data() + 1) == n && Str<C>(cp.data() + 1, n) == t && cp[0] == '#' && cp[n + 1] == '#', "copy" << what());
  Str<C> blank(s.upto(std::min<size_t>(n, 5000)), (C)' '), tr = blank + t + blank;
  size_t b0 = 0, b1 = tr.size();
  while (b0 < b1 && (tr[b0] == ' ' || tr[b0] == '\t')) b0++;
  while (b1 > b0 && (tr[b1 - 1] == ' ' || tr[b1 - 1] == '\t')) b1--;
  REQUIRE(es::TrimWhitespace(View<C>(tr)).to_string() == tr.substr(b0, b1 - b0), "TrimWhitespace" << what());
  s.nontrivial(n >= 64 && !nd.empty());
  if (n > 4096) s.label("longer than 4096");
  s.note([&](std::ostream &o) { o << "text" << what(); });
}
PBT_TEST(long_texts, 8000, 250000) {
  switch (s.upto(6)) {
  default: longTexts<char>(s); break;
  case 4: longTexts<wchar_t>(s); break;
  case 5: longTexts<char16_t>(s); break;
  case 6: longTexts<char32_t>(s); break;
  }
}
PBT_TEST(searching, 400000, 12000000) {
  switch (s.upto(6)) {
  default: search<char>(s); break;
  case 4: search<wchar_t>(s); break;
  case 5: search<char16_t>(s); break;
  case 6: search<char32_t>(s); break;
  }
}
PBT_TEST(slicing_comparing, 400000, 12000000) {
  switch (s.upto(6)) {
  default: slices<char>(s); break;
  case 4: slices<wchar_t>(s); break;
  case 5: slices<char16_t>(s); break;
  case 6: slices<char32_t>(s); break;
  }
}
PBT_TEST(streaming, 20000, 300000) {
  Held<char> h;
  hold<char>(s, h, text<char>(s, 60));
  std::ostringstream o;
  o << "[" << h.view << "]";
  REQUIRE(o.str() == "[" + h.str + "]", "written to a stream: " << sh(h.str) << " " << sh(o.str()));
  Held<wchar_t> w;
  hold<wchar_t>(s, w, text<wchar_t>(s, 60));
  std::wostringstream wo;
  wo << L"[" << w.view << L"]";
  REQUIRE(wo.str() == L"[" + w.str + L"]", "written to a stream: " << sh(w.str));
  // width, fill and side as for any other text
  auto padded = [&](auto &out, auto &ref, const auto &view, const auto &str, const auto &end) {
    int width = s.irange(0, (int)str.size() + 6), side = s.upto(2);
    for (auto *st : {&out, &ref}) {
      st->width(width);
      if (side != 2) st->setf(side ? std::ios::left : std::ios::right, std::ios::adjustfield);
      st->fill('*');
    }
    out << view << end, ref << str << end;
    return out.str() == ref.str() && out.width() == ref.width();
  };
  std::ostringstream po, pr;
  REQUIRE(padded(po, pr, h.view, h.str, "|"), "written with a width: " << sh(po.str()) << " instead of " << sh(pr.str()));
  std::wostringstream pwo, pwr;
  REQUIRE(padded(pwo, pwr, w.view, w.str, L"|"), "written with a width: " << sh(pwo.str()) << " instead of " << sh(pwr.str()));
  static constexpr auto lit = es::MakeStringView("a literal\0 with zero");
  REQUIRE(lit.to_string() == std::string("a literal\0 with zero", 20), "literal view");
  s.nontrivial(h.str.size() >= 2);
}

// views longer than four bytes count, over pages that hold nothing but zeros and a few letters
template <class C> static void huge(Src &s) {
  typedef es::basic_string_view<C> V;
  const size_t room = ((size_t)5 << 32) + 8192;
  static C *const mem = [&] { void *m = mmap(nullptr, room * sizeof(C), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return m == MAP_FAILED ? nullptr : (C *)m; }();
  if (!mem) return;
  const size_t small = s.upto(40), large = ((size_t)s.range(1, 4) << (s.coin() ? 32 : 31)) + (size_t)s.irange(-4, 60);
  const V a(mem, small), b(mem, large);
  s.nontrivial();
  s.note([&](std::ostream &o) { o << small << " and " << large << " characters of " << sizeof(C); });
  REQUIRE(b.size() == large && b.length() == large && !b.empty() && (size_t)(b.end() - b.begin()) == large, "size");
  REQUIRE(a.compare(b) < 0 && b.compare(a) > 0, "compare");
  REQUIRE(a < b && b > a && a != b && !(a == b) && a <= b && b >= a && !(b < a) && !(a > b), "operators");
  const size_t near = large - s.range(1, 60);
  struct Clean { C *p; ~Clean() { *p = 0; } } clean{mem + near};
  mem[near] = 'x'; // one letter close to the end
  const C x[] = {'x'};
  REQUIRE_EQ(b.rfind(V(x, 1)), near, "rfind");
  REQUIRE_EQ(b.find_last_of(V(x, 1)), near, "find_last_of");
  REQUIRE_EQ(b.find_last_not_of((C)0), near, "find_last_not_of");
  const size_t from = near - s.upto(30);
  REQUIRE_EQ(b.find(V(x, 1), from), near, "find");
  REQUIRE_EQ(b.find_first_of((C)'x', from), near, "find_first_of");
  REQUIRE_EQ(b.find_first_not_of((C)0, from), near, "find_first_not_of");
  REQUIRE_EQ(b.find((C)'x', near + 1), (size_t)V::npos, "find behind it");
  REQUIRE(b[near] == 'x' && b.at(near) == 'x', "character");
  REQUIRE(throwsRange([&] { b.at(large); }) && throwsRange([&] { b.substr(large + 1); }), "position behind the end");
  V t = b.substr(from);
  REQUIRE(t.data() == mem + from && t.size() == large - from, "substr of " << large << " at " << from);
  V r = b;
  r.remove_prefix(from);
  REQUIRE(r.data() == mem + from && r.size() == large - from, "remove_prefix");
  r = b, r.remove_suffix(large - near);
  REQUIRE(r.data() == mem && r.size() == near, "remove_suffix");
  C out[80];
  const size_t left = large - from < 80 ? large - from : 80, copied = b.copy(out, 80, from);
  REQUIRE_EQ(copied, left, "copy");
  REQUIRE(out[near - from] == 'x', "copied character");
}
PBT_TEST(huge_views, 3000, 40000) { return s.coin() ? huge<char>(s) : huge<char16_t>(s); }

// characters that are equal without being the same: every search and comparison asks the traits
struct AnyCase : std::char_traits<char> {
  static char up(char c) { return c >= 'a' && c <= 'z' ? c - 'a' + 'A' : c; }
  static bool eq(char a, char b) { return up(a) == up(b); }
  static bool lt(char a, char b) { return up(a) < up(b); }
  static int compare(const char *a, const char *b, size_t n) {
    for (; n; n--, a++, b++) {
      if (lt(*a, *b)) return -1;
      if (lt(*b, *a)) return 1;
    }
    return 0;
  }
  static const char *find(const char *p, size_t n, const char &c) {
    for (; n; n--, p++) if (eq(*p, c)) return p;
    return nullptr;
  }
};
PBT_TEST(own_traits, 60000, 1500000) {
  typedef std::basic_string<char, AnyCase> S;
  typedef es::basic_string_view<char, AnyCase> V;
  auto gen = [&](size_t max) {
    S r;
    for (size_t n = s.size(max), i = 0; i < n; i++) r += s.pick({'a', 'A', 'b', 'B', ' ', 'z'});
    return r;
  };
  S h = gen(20), n = gen(4);
  if (!h.empty() && s.coin()) { // a piece of the text in another case
    size_t at = s.upto(h.size() - 1);
    n = h.substr(at, 1 + s.upto(3));
    for (char &c : n) if (c != ' ' && s.coin()) c ^= 0x20;
  }
  size_t pos = position(s, h.size());
  V v(h.data(), h.size()), w(n.data(), n.size());
  s.nontrivial(h.size() > 1 && !n.empty());
  s.note([&](std::ostream &o) { o << "'" << h.c_str() << "' and '" << n.c_str() << "' at " << pos; });
  REQUIRE_EQ(v.find(w, pos), h.find(n, pos), "find");
  REQUIRE_EQ(v.rfind(w, pos), h.rfind(n, pos), "rfind");
  REQUIRE_EQ(v.find_first_of(w, pos), h.find_first_of(n, pos), "find_first_of");
  REQUIRE_EQ(v.find_last_of(w, pos), h.find_last_of(n, pos), "find_last_of");
  REQUIRE_EQ(v.find_first_not_of(w, pos), h.find_first_not_of(n, pos), "find_first_not_of");
  REQUIRE_EQ(v.find_last_not_of(w, pos), h.find_last_not_of(n, pos), "find_last_not_of");
  REQUIRE_EQ(sgn(v.compare(w)), sgn(h.compare(n)), "compare");
  REQUIRE(((v == w) == (h == n)) && ((v != w) == (h != n)) && ((v < w) == (h < n)) && ((v > w) == (h > n)) && ((v <= w) == (h <= n)) && ((v >= w) == (h >= n)), "comparison operators");
}
