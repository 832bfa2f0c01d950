// C07: assigning reflected members. The oracle builds the text from an intended
// value (never parses it) and compares the whole block of memory around the
// object before and after the call.
#include "refl_types.hpp"
using pbt::Src;
using std::string;
using ET = Reflector::ErrorType;

static const char *etName(ET e) {
  static const char *const n[] = {"None", "SignMismatch", "OutOfRange", "InvalidFormat", "InvalidDestination", "EmptyInput", "ShortInput"};
  return n[(int)e];
}

// What one scalar should hold afterwards.
struct Slot {
  size_t off, size;
  string want;        // bytes
  bool any = false;   // not specified
  bool orOld = false; // may be unchanged
  uint64_t mask = ~0ULL; // bit-field: bits of the word that may change
  bool isNan = false;
  const string *str = nullptr;
  string strWant;
};
enum Expect { EX_OK, EX_ERR, EX_EXACT };
struct Plan {
  string text;
  Expect x = EX_OK;
  ET exact = ET::None;
  std::vector<Slot> slots;
  void err(ET e) { x = EX_EXACT; exact = e; }
  void anyErr() { x = EX_ERR; }
};

static string blanks(Src &s) {
  string r;
  for (size_t n = s.upto(7) > 4 ? s.range(1, 3) : 0; n; n--)
    r += s.coin() ? ' ' : '\t';
  return r;
}
static string bytesOf(uint64_t v, size_t n) { return string((char *)&v, n); }
static string hexText(uint64_t v, Src &s) {
  char b[32];
  snprintf(b, 32, s.coin() ? "0x%llx" : "0x%llX", (unsigned long long)v);
  if (b[1] == 'X') b[1] = 'x';
  return b;
}
static string i128(__int128 v) {
  if (!v) return "0";
  bool neg = v < 0;
  unsigned __int128 u = neg ? -(unsigned __int128)v : v;
  string r;
  for (; u; u /= 10) r.insert(r.begin(), (char)('0' + (int)(u % 10)));
  return neg ? "-" + r : r;
}
// text that does not begin with a number
static string junk(Src &s) {
  return s.pick<string>({"dis121", "-", "+", "x12", "_", "true1", "?7", "--4", "=5", "z", "- 3"});
}

static void planInt(Src &s, bool sgn, unsigned bits, Plan &p, Slot &sl, bool bitField) {
  const __int128 lo = sgn ? -((__int128)1 << (bits - 1)) : 0, hi = ((__int128)1 << (sgn ? bits - 1 : bits)) - 1;
  const size_t sz = sl.size;
  uint64_t k = s.upto(11);
  __int128 v;
  if (k < 7) { // in range
    uint64_t r = s.bits(bits);
    v = sgn ? (__int128)((int64_t)(r << (64 - bits)) >> (64 - bits)) : (__int128)r;
    s.label("in range");
  } else if (k < 10) { // outside
    __int128 d = (__int128)1 + (s.coin() ? s.upto(3) : s.bits(s.coin() ? bits : 64));
    bool below = sgn && s.coin();
    v = below ? lo - d : hi + d;
    if (s.chance(1, 8)) v = v * 1000003;
    p.err(ET::OutOfRange);
    s.label("out of range");
  } else if (k == 10 && !sgn) { // sign mismatch: two's complement of the width
    uint64_t m = 1 + s.bits(62);
    v = -(__int128)m;
    p.text = s.coin() ? i128(v) : "-" + hexText(m, s);
    s.label("negative to unsigned");
    if (bitField) {
      p.anyErr();
      sl.any = true;
    } else {
      p.err(ET::SignMismatch);
      sl.want = bytesOf((uint64_t)-(int64_t)m, sz);
    }
    return;
  } else {
    p.text = junk(s);
    if (s.chance(1, 4)) p.text = "";
    p.err(ET::InvalidFormat);
    sl.want.clear(); // unchanged
    sl.orOld = true;
    s.label("no number");
    return;
  }
  unsigned __int128 mag = v < 0 ? -(unsigned __int128)v : v;
  if (mag <= ~0ULL && s.chance(1, 3))
    p.text = (v < 0 ? "-" : "") + hexText((uint64_t)mag, s);
  else {
    p.text = i128(v);
    if (v >= 0 && s.chance(1, 10)) p.text = "+" + p.text;
    else if (v >= 0 && s.chance(1, 10)) p.text = "000" + p.text;
  }
  if (s.chance(1, 10)) p.text += s.pick<string>({" trailing", "dis"}).substr(p.text.find('x') != string::npos ? 0 : 0);
  if (p.text.find('x') != string::npos && p.text.size() > 3 && p.text.substr(p.text.size() - 3) == "dis") p.text.replace(p.text.size() - 3, 3, "_ij");
  __int128 c = v < lo ? lo : v > hi ? hi : v;
  sl.want = bytesOf((uint64_t)(int64_t)c, sz);
  if (!sgn) sl.want = bytesOf((uint64_t)c, sz);
}

static void planFloat(Src &s, size_t sz, Plan &p, Slot &sl) {
  uint64_t k = s.upto(11);
  auto put = [&](double v) {
    if (sz == 4) { float f = (float)v; sl.want = string((char *)&f, 4); }
    else sl.want = string((char *)&v, 8);
  };
  if (k < 7) {
    double v = genReal(s, sz, false);
    char b[400];
    switch (s.upto(3)) {
    case 0: snprintf(b, 64, sz == 4 ? "%.9g" : "%.17g", v); break;
    case 1: snprintf(b, 64, "%.3g", v); break;
    case 2: snprintf(b, 64, "%.8e", v); break;
    default: if (std::fabs(v) < 1e15 && std::fabs(v) > 1e-5) snprintf(b, 400, "%f", v); else snprintf(b, 64, "%g", v); break;
    }
    // the text denotes the nearest representable value
    if (sz == 4) {
      float f = strtof(b, nullptr);
      if (!std::isfinite(f) || (f != 0 && !std::isnormal(f))) { strcpy(b, "-12.5"); f = -12.5f; }
      sl.want = string((char *)&f, 4);
    } else {
      double d = strtod(b, nullptr);
      if (!std::isfinite(d) || (d != 0 && !std::isnormal(d))) { strcpy(b, "7e3"); d = 7000; }
      sl.want = string((char *)&d, 8);
    }
    p.text = b;
    if (s.chance(1, 10)) p.text += " units";
  } else if (k < 9) { // too large
    bool neg = s.coin();
    p.text = string(neg ? "-" : "") + (sz == 4 && s.coin() ? s.pick<string>({"1e39", "4e38", "3.5e38", "1e100"}) : s.pick<string>({"1e309", "2e400", "9e999"}));
    double m = sz == 4 ? (double)std::numeric_limits<float>::max() : std::numeric_limits<double>::max();
    put(neg ? -m : m);
    p.err(ET::OutOfRange);
  } else if (k == 9) { // too small
    bool neg = s.coin();
    p.text = string(neg ? "-" : "") + (sz == 4 && s.coin() ? s.pick<string>({"1e-39", "1.0e-45", "1e-44"}) : s.pick<string>({"1e-310", "1e-400", "4e-320"}));
    double m = sz == 4 ? (double)std::numeric_limits<float>::min() : std::numeric_limits<double>::min();
    put(neg ? -m : m);
    p.err(ET::OutOfRange);
  } else if (k == 10) {
    string t = s.pick<string>({"inf", "-inf", "nan", "INF", "infinity"});
    p.text = t;
    if (t == "nan") { sl.isNan = true; put(0); }
    else put(t[0] == '-' ? -INFINITY : INFINITY);
  } else {
    p.text = s.pick<string>({"dis1.5", "-", ".", "e5", "x", "--1", ""});
    p.err(ET::InvalidFormat);
    sl.want.clear();
    sl.orOld = true;
  }
}

static string notAName(Src &s, const EnumModel &e) {
  string n = s.pick(e.items).first;
  switch (s.upto(3)) {
  case 0: n += "x"; break;
  case 1: n = n.substr(0, n.size() - 1); break;
  case 2: n = "sirius"; break;
  default: n[0] ^= 0x20; break;
  }
  for (auto &i : e.items)
    if (i.first == n) return "??";
  return n.empty() ? "??" : n;
}

static void plan(Src &s, const Desc &d, size_t off, Plan &p, bool inList);

static void planList(Src &s, const Desc &d, size_t off, Plan &p, bool inList) {
  const char open = d.kind == K_VECTOR ? '[' : '{', close = d.kind == K_VECTOR ? ']' : '}';
  uint64_t k = s.upto(15);
  size_t n = d.count;
  bool extra = false, lax = false;
  if (k == 13 && n > 1) n = s.range(1, n - 1), s.label("short list"); // pinned: no error, rest kept
  if (k == 14) extra = true, s.label("long list");
  string t;
  bool bad = false, anyIn = false;
  for (size_t i = 0; i < n; i++) {
    Plan q;
    plan(s, *d.sub, off + i * d.sub->size, q, true);
    if (q.text.empty() || q.text.find_first_not_of(" \t") == string::npos) { // an empty element is a short list
      q.text = "_";
      q.anyErr();
      for (auto &sl : q.slots) sl.any = true;
    }
    bad = bad || q.x != EX_OK;
    if (i) t += ",";
    t += blanks(s) + q.text + (d.sub->kind == K_STRING ? string() : blanks(s));
    for (auto &sl : q.slots) p.slots.push_back(sl);
  }
  for (size_t i = n; i < d.count; i++)
    if (i == n) lax = true;
  if (extra) { t += ", "; Plan q; plan(s, *d.sub, off, q, true); t += q.text.empty() ? "1" : q.text; bad = true; }
  // a list may end in a comma followed by blanks
  bool enumish = d.sub->kind == K_ENUM || d.sub->kind == K_FLAGS || d.sub->kind == K_STRING;
  if (!extra && n == d.count && s.chance(1, 8)) {
    t += enumish ? ", " : s.coin() ? "," : " ,  ";
    s.label("trailing comma");
  }
  p.text = blanks(s) + open + t + close + blanks(s);
  if (bad) {
    p.anyErr();
    for (auto &sl : p.slots) sl.orOld = true, anyIn = anyIn || sl.any;
    if (anyIn && d.sub->kind == K_VECTOR) {
      p.slots.assign(1, Slot{off, d.size});
      p.slots[0].any = true;
    }
  }
  if (k == 15) { // broken brackets
    switch (s.upto(4)) {
    case 4: p.text = string(1, close) + (t.find(open) == string::npos && t.find(close) == string::npos ? t : string("1")) + open; break; // the wrong way round
    case 0: p.text = t + close; break;
    case 1: p.text = string(1, open) + t; break;
    case 2: p.text = string(1, open) + close; break;
    default: p.text = ""; break;
    }
    size_t o = p.text.find(open), c = p.text.find_last_of(close);
    if (o == string::npos || c == string::npos || c < o || c == o + 1) {
      s.label("broken list");
      p.anyErr();
      for (auto &sl : p.slots) { sl.want.clear(); sl.orOld = true; sl.any = false; sl.isNan = false; sl.str = nullptr; }
    } else {
      p.text = string(1, open) + close;
      p.anyErr();
      for (auto &sl : p.slots) { sl.want.clear(); sl.orOld = true; sl.any = false; sl.isNan = false; }
    }
  }
  if (k == 15 && inList) // a broken inner list may swallow its neighbours
    for (auto &sl : p.slots) sl.any = true;
  (void)lax;
}

static void plan(Src &s, const Desc &d, size_t off, Plan &p, bool inList) {
  if (d.kind == K_VECTOR || d.kind == K_ARRAY) {
    planList(s, d, off, p, inList);
    return;
  }
  Slot sl{off, d.size};
  switch (d.kind) {
  case K_BOOL: {
    if (s.upto(5) < 5) {
      bool v = s.coin();
      p.text = v ? "true" : "false";
      for (auto &c : p.text) if (s.chance(1, 3)) c = (char)toupper(c);
      sl.want = string(1, (char)v);
    } else {
      p.text = s.pick<string>({"tralse", "yes", "0", "tru", "fals", "", "t"});
      p.err(ET::InvalidFormat);
      sl.any = true;
    }
    break;
  }
  case K_INT: case K_UINT: planInt(s, d.kind == K_INT, (unsigned)d.size * 8, p, sl, false); break;
  case K_FLOAT: planFloat(s, d.size, p, sl); break;
  case K_ENUM:
    if (s.upto(5) < 5) {
      auto &i = s.pick(d.en->items);
      p.text = i.first;
      sl.want = bytesOf(i.second, d.size);
    } else {
      sl.orOld = true;
      if (s.coin()) { p.text = notAName(s, *d.en); p.err(ET::InvalidFormat); }
      else { p.text = ""; p.err(ET::EmptyInput); }
    }
    break;
  case K_FLAGS: {
    uint64_t v = 0;
    size_t n = s.range(0, 4);
    bool bad = false;
    for (size_t i = 0; i < n; i++) {
      if (i) p.text += blanks(s) + "|" + blanks(s);
      if (s.chance(1, 12)) {
        bad = true;
        p.text += s.chance(1, 6) ? s.pick<string>({"NULLS", "NULL0", "nULL"}) : s.coin() ? notAName(s, *d.en) : string();
        if (i + 1 < n && s.coin()) { // a part without any text
          p.text += p.text.empty() || p.text.back() == '|' || p.text.back() == ' ' || p.text.back() == '\t' ? "" : "|";
          s.label("empty flag part");
        } else if (p.text.empty() || p.text.back() == '|' || p.text.back() == ' ' || p.text.back() == '\t') p.text += " nix";
      } else {
        auto &it = s.pick(d.en->items);
        p.text += it.first;
        v |= 1ULL << it.second;
      }
    }
    if (!n) p.text = "NULL";
    sl.want = bytesOf(v, d.size);
    if (bad) { p.anyErr(); sl.any = true; }
    break;
  }
  case K_STRING:
    p.text = genStr(s, inList ? 1 : 0);
    if (inList && s.chance(1, 3)) { // separators inside brackets belong to the element
      string br = s.pick<string>({"()", "[]", "{}", "\"\""}), in = genStr(s, 1);
      for (size_t k = s.upto(3); k; k--) in.insert(s.upto(in.size()), s.coin() ? "," : ", ");
      p.text = (s.coin() ? p.text : string()) + br[0] + in + br[1] + (s.coin() ? genStr(s, 1) : string());
      s.label("bracketed element");
    }
    sl.strWant = p.text;
    break;
  case K_CLASS: // text is no value of a class
    p.text = s.coin() ? "1" : "SUBCLASS_TYPE";
    p.anyErr();
    sl.orOld = true;
    break;
  default: break;
  }
  if (!inList && d.kind != K_STRING && !p.text.empty())
    p.text = blanks(s) + p.text + (p.x == EX_OK && d.kind != K_FLOAT && p.text.find("dis") == string::npos ? blanks(s) : "");
  p.slots.push_back(sl);
}

// --------------------------------------------------------------- object snapshots
static void strOffsets(const ClassModel &c, std::vector<size_t> &o) {
  for (auto &m : c.members) {
    if (m.d->kind == K_STRING) o.push_back(m.off);
    if (m.d->kind == K_ARRAY && m.d->sub->kind == K_STRING)
      for (size_t i = 0; i < m.d->count; i++) o.push_back(m.off + i * m.d->sub->size);
  }
}
struct Snap {
  string img;
  std::map<size_t, string> strs; // by image offset
};
static Snap snap(const Obj &o) {
  Snap r;
  r.img = o.image();
  std::vector<size_t> so;
  strOffsets(*o.c, so);
  for (auto off : so) {
    r.strs[off + o.guard] = *(std::string *)(o.obj() + off);
    memset(&r.img[off + o.guard], 0, sizeof(std::string));
  }
  return r;
}
static void check(const Snap &before, const Obj &o, const std::vector<Slot> &slots, size_t base, const string &what) {
  Snap now = snap(o);
  string allowed(now.img.size(), '\0'); // 1: accounted for
  for (auto &sl : slots) {
    size_t a = o.guard + base + sl.off;
    if (now.strs.count(a)) {
      const string &n = now.strs[a];
      const string &b = before.strs.at(a);
      if (!sl.any)
        REQUIRE(n == sl.strWant || (sl.orOld && n == b), what << " string holds " << pbt::esc(n) << " expected " << pbt::esc(sl.strWant));
      continue;
    }
    string cur = now.img.substr(a, sl.size), old = before.img.substr(a, sl.size);
    for (size_t i = 0; i < sl.size; i++) allowed[a + i] = 1;
    if (sl.mask != ~0ULL) {
      uint64_t c = getU(cur.data(), sl.size), b = getU(old.data(), sl.size);
      REQUIRE((c & ~sl.mask) == (b & ~sl.mask), what << " changed other bits of the word: " << pbt::hex(old.data(), sl.size) << " -> " << pbt::hex(cur.data(), sl.size));
      if (sl.any) continue;
      uint64_t w = sl.want.empty() ? b : getU(sl.want.data(), sl.size);
      REQUIRE((c & sl.mask) == (w & sl.mask) || (sl.orOld && c == b), what << " stored " << pbt::hex(cur.data(), sl.size) << " expected " << pbt::hex(&w, sl.size) << " before " << pbt::hex(old.data(), sl.size));
      continue;
    }
    if (sl.any) continue;
    if (sl.isNan) {
      double v;
      if (sl.size == 4) { float f; memcpy(&f, cur.data(), 4); v = f; } else memcpy(&v, cur.data(), 8);
      REQUIRE(std::isnan(v) || (sl.orOld && cur == old), what << " is not NaN");
      continue;
    }
    bool ok = (!sl.want.empty() && cur == sl.want) || ((sl.orOld || sl.want.empty()) && cur == old);
    REQUIRE(ok, what << " stored " << pbt::hex(cur.data(), cur.size()) << " expected " << (sl.want.empty() ? "unchanged " + pbt::hex(old.data(), old.size()) : pbt::hex(sl.want.data(), sl.want.size())));
  }
  for (auto &st : now.strs) {
    bool in = false;
    for (auto &sl : slots) in = in || o.guard + base + sl.off == st.first;
    if (!in)
      REQUIRE(st.second == before.strs.at(st.first), what << " changed another string");
  }
  for (size_t i = 0; i < now.img.size(); i++)
    if (!allowed[i])
      REQUIRE(now.img[i] == before.img[i], what << " changed byte " << (long)i - (long)(o.guard + base) << " relative to the object addressed (size " << o.c->size << ", base " << base << ")");
}

struct Cur { // the (sub) object addressed
  const ClassModel *c;
  size_t base;
  ReflectedInstance inst;
};
static JenHash hashOf(const char *n) { return JenHash(es::string_view(n)); }

static Cur descend(Src &s, const Obj &o) {
  Cur cur{o.c, 0, o.inst()};
  while (cur.c->bits.empty()) {
    std::vector<size_t> sub;
    for (size_t i = 0; i < cur.c->members.size(); i++) {
      auto d = cur.c->members[i].d;
      if (d->kind == K_CLASS || (d->kind == K_ARRAY && d->sub->kind == K_CLASS)) sub.push_back(i);
    }
    if (sub.empty() || s.upto(3) == 0) break;
    size_t m = s.pick(sub);
    auto &mm = cur.c->members[m];
    size_t idx = mm.d->kind == K_ARRAY ? s.upto(mm.d->count - 1) : 0;
    ReflectorPureWrap w(cur.inst);
    ReflectedInstance r = !idx && s.coin() ? (s.coin() ? w.GetReflectedSubClass(m) : w.GetReflectedSubClass(hashOf(mm.name))) // the first by default
                          : s.coin() ? w.GetReflectedSubClass(m, idx) : w.GetReflectedSubClass(hashOf(mm.name), idx);
    const ClassModel *nc = mm.d->kind == K_ARRAY ? mm.d->sub->cls : mm.d->cls;
    cur = Cur{nc, cur.base + mm.off + idx * nc->size, r};
  }
  return cur;
}

static ET setText(Src &s, ReflectorPureWrap &w, const Cur &cur, size_t m, const string &t) {
  const char *alias = cur.c->bits.empty() ? cur.c->members[m].alias : cur.c->bits[m].alias;
  switch (s.upto(alias ? 2 : 1)) {
  case 0: return w.SetReflectedValue(m, es::string_view(t.data(), t.size()));
  case 1: return w.SetReflectedValue(hashOf(cur.c->mname(m)), es::string_view(t.data(), t.size()));
  default: return w.SetReflectedValue(hashOf(alias), es::string_view(t.data(), t.size()));
  }
}
static void expectErr(const Plan &p, ET e, const string &what) {
  if (p.x == EX_OK) REQUIRE(e == ET::None, what << " -> " << etName(e));
  if (p.x == EX_ERR) REQUIRE(e != ET::None, what << " -> reported success");
  if (p.x == EX_EXACT) REQUIRE(e == p.exact, what << " -> " << etName(e) << " expected " << etName(p.exact));
}

static const ClassModel *pickClass(Src &s) {
  if (s.chance(1, 8)) return &classModel<Str>();
  if (s.chance(1, 60)) return s.pick(longClasses());
  return s.pick(podClasses());
}

static Obj fresh(Src &s, const ClassModel *c) {
  Obj o(c);
  FillOpts fo;
  if (!c->hasStrings) {
    string r = s.bulk(c->size);
    memcpy(o.obj(), r.data(), r.size());
  }
  fillClass(s, *c, o.obj(), fo);
  if (c == &classModel<Bf16>()) {
  }
  return o;
}

PBT_TEST(set_text, 300000, 15000000) {
  Obj o = fresh(s, pickClass(s));
  size_t ops = s.range(1, 4);
  for (size_t op = 0; op < ops; op++) {
    Cur cur = descend(s, o);
    ReflectorPureWrap w(cur.inst);
    size_t m = s.upto(cur.c->n() - 1);
    Plan p;
    string what;
    Snap b = snap(o);
    ET e;
    if (!cur.c->bits.empty()) {
      auto &bm = cur.c->bits[m];
      Slot sl{0, cur.c->size};
      sl.mask = (~0ULL >> (64 - bm.width)) << bm.pos;
      planInt(s, cur.c->sgn, (unsigned)bm.width, p, sl, true);
      if (!sl.want.empty()) { uint64_t v = 0; memcpy(&v, sl.want.data(), sl.want.size()); sl.want = bytesOf(v << bm.pos, cur.c->size); }
      // planInt produced value bytes of the storage width; rebuild from value
      p.text = blanks(s) + p.text;
      p.slots.push_back(sl);
      e = setText(s, w, cur, m, p.text);
      s.label(cur.c->sgn ? "signed bit field" : "bit field");
    } else {
      plan(s, *cur.c->members[m].d, cur.c->members[m].off, p, false);
      e = setText(s, w, cur, m, p.text);
      s.label(kindNames[cur.c->members[m].d->kind]);
    }
    what = string(cur.c->name) + "." + cur.c->mname(m) + " = " + pbt::esc(p.text);
    s.nontrivial(true);
    s.note([&](std::ostream &os) { os << what << " -> " << etName(e); });
    expectErr(p, e, what);
    check(b, o, p.slots, cur.base, what);
  }
}

// one element of an array or vector, one component of a vector in an array, one
// flag of a flag set; existing or not
PBT_TEST(set_element, 200000, 10000000) {
  Obj o = fresh(s, pickClass(s));
  size_t ops = s.range(1, 3);
  for (size_t op = 0; op < ops; op++) {
    Cur cur = descend(s, o);
    ReflectorPureWrap w(cur.inst);
    size_t m = s.upto(cur.c->n() - 1);
    Plan p;
    Snap b = snap(o);
    const bool byId = s.coin(), bits = !cur.c->bits.empty();
    const Desc *d = bits ? nullptr : cur.c->members[m].d;
    size_t off = bits ? 0 : cur.c->members[m].off;
    const bool two = s.chance(1, 3);
    auto index = [&](size_t n) -> size_t {
      switch (s.upto(9)) {
      case 0: return n;
      case 1: return n + s.upto(300);
      case 2: return s.pick<size_t>({~size_t(0), ~size_t(0) >> 1, 0x10000, 0x100000000ull});
      default: return n ? s.upto(n - 1) : s.upto(1);
      }
    };
    JenHash h = hashOf(cur.c->mname(m));
    ET e;
    std::ostringstream what;
    if (!two) {
      size_t idx;
      if (d && (d->kind == K_ARRAY || d->kind == K_VECTOR)) {
        idx = index(d->count);
        if (idx < d->count) plan(s, *d->sub, off + idx * d->sub->size, p, false);
        else { Plan q; plan(s, *d->sub, 0, q, false); p.text = q.text; p.anyErr(); s.label("no such element"); }
      } else if (d && d->kind == K_FLAGS) {
        idx = index(d->size * 8);
        Slot sl{off, d->size};
        if (idx < d->size * 8) {
          sl.mask = 1ULL << idx;
          bool v = s.coin();
          p.text = v ? "true" : "False";
          sl.want = bytesOf(v ? sl.mask : 0, d->size);
          if (s.chance(1, 6)) { p.text = "maybe"; p.anyErr(); sl.orOld = true; sl.want.clear(); sl.any = true; }
          p.slots.push_back(sl);
          s.label("flag bit");
        } else { p.text = "true"; p.anyErr(); s.label("no such element"); }
      } else {
        idx = index(1);
        p.text = "1";
        p.anyErr();
        s.label("no such element");
      }
      e = byId ? w.SetReflectedValue(m, p.text, idx) : w.SetReflectedValue(h, p.text, idx);
      what << cur.c->name << "." << cur.c->mname(m) << "[" << idx << "] = " << pbt::esc(p.text);
    } else {
      size_t i, j;
      if (d && d->kind == K_ARRAY && d->sub->kind == K_VECTOR) {
        i = index(d->count), j = index(d->sub->count);
        if (i < d->count && j < d->sub->count) { plan(s, *d->sub->sub, off + i * d->sub->size + j * d->sub->sub->size, p, false); s.label("component"); }
        else { p.text = "1"; p.anyErr(); s.label("no such element"); }
      } else {
        i = index(d ? d->count : 0), j = index(3);
        p.text = "1";
        p.anyErr();
        s.label("no such element");
      }
      e = byId ? w.SetReflectedValue(m, p.text, i, j) : w.SetReflectedValue(h, p.text, i, j);
      what << cur.c->name << "." << cur.c->mname(m) << "[" << i << "][" << j << "] = " << pbt::esc(p.text);
    }
    s.nontrivial(true);
    s.note([&](std::ostream &os) { os << what.str() << " -> " << etName(e); });
    expectErr(p, e, what.str());
    check(b, o, p.slots, cur.base, what.str());
  }
}

PBT_TEST(set_number, 60000, 1500000) {
  Obj o = fresh(s, pickClass(s));
  for (size_t ops = s.range(1, 3); ops; ops--) {
    Cur cur = descend(s, o);
    ReflectorPureWrap w(cur.inst);
    size_t m = s.upto(cur.c->n() - 1);
    Snap b = snap(o);
    const bool byId = s.coin(), bits = !cur.c->bits.empty();
    const Desc *d = bits ? nullptr : cur.c->members[m].d;
    size_t off = bits ? 0 : cur.c->members[m].off, idx = 0;
    bool exists = true;
    if (s.coin() || (d && (d->kind == K_ARRAY || d->kind == K_VECTOR))) {
      idx = s.upto(9) == 0 ? s.pick<size_t>({~size_t(0), 0x10000, 255, 256}) : s.upto(d && d->count ? d->count : 2);
      if (d && (d->kind == K_ARRAY || d->kind == K_VECTOR)) {
        exists = idx < d->count;
        off += idx * d->sub->size;
        d = d->sub;
      } else exists = idx == 0;
    }
    uint64_t setter = s.upto(2);
    Kind want = setter == 0 ? K_INT : setter == 1 ? K_UINT : K_FLOAT;
    const Desc *md = bits ? nullptr : cur.c->members[m].d;
    // element 0 of a list shares its address with the list as a whole, which is
    // not a number: accepted as error, or as an assignment to element 0
    bool whole = md && (md->kind == K_ARRAY || md->kind == K_VECTOR) && idx == 0;
    bool ok = exists && d && d->kind == want;
    JenHash h = hashOf(cur.c->mname(m));
    ET e;
    Slot sl{off, d ? d->size : 0};
    std::ostringstream what;
    what << cur.c->name << "." << cur.c->mname(m) << "[" << idx << "] <- ";
    if (setter < 2) {
      uint64_t v;
      if (d && s.upto(3)) { // inside the range of the member
        unsigned nb = (unsigned)d->size * 8 > 64 ? 64 : (unsigned)d->size * 8;
        v = s.bits(nb);
        if (setter == 0) v = (uint64_t)((int64_t)(v << (64 - nb)) >> (64 - nb));
      } else v = s.bits(64); // pinned by the tests: keeps the low bytes
      sl.want = bytesOf(v, sl.size > 8 ? 0 : sl.size);
      if (!idx && s.coin()) // the first by default
        e = setter == 0 ? (byId ? w.SetReflectedValueInt(m, (int64_t)v) : w.SetReflectedValueInt(h, (int64_t)v))
                        : (byId ? w.SetReflectedValueUInt(m, v) : w.SetReflectedValueUInt(h, v));
      else e = setter == 0 ? (byId ? w.SetReflectedValueInt(m, (int64_t)v, idx) : w.SetReflectedValueInt(h, (int64_t)v, idx))
                      : (byId ? w.SetReflectedValueUInt(m, v, idx) : w.SetReflectedValueUInt(h, v, idx));
      what << (setter ? "uint " : "int ") << v;
    } else {
      double v = genReal(s, d && d->kind == K_FLOAT ? d->size : 8, false);
      if (s.chance(1, 8)) { // the ends of the range
        bool f4 = d && d->size == 4;
        v = s.pick({f4 ? (double)std::numeric_limits<float>::max() : std::numeric_limits<double>::max(), 3.4025e38, (double)INFINITY,
                    f4 ? (double)std::numeric_limits<float>::denorm_min() : std::numeric_limits<double>::denorm_min(), 0.0});
        if (s.coin()) v = -v;
      }
      if (d && d->size == 4) { float f = (float)v; sl.want = string((char *)&f, 4); }
      else sl.want = string((char *)&v, 8);
      if (!idx && s.coin()) e = byId ? w.SetReflectedValueFloat(m, v) : w.SetReflectedValueFloat(h, v);
      else e = byId ? w.SetReflectedValueFloat(m, v, idx) : w.SetReflectedValueFloat(h, v, idx);
      what << "float " << v;
    }
    s.nontrivial(true);
    s.label(ok ? "stored" : "refused");
    s.note([&](std::ostream &os) { os << what.str() << " -> " << etName(e); });
    std::vector<Slot> slots;
    if (ok && whole) {
      if (e != ET::None) ok = false;
    }
    if (ok) {
      REQUIRE(e == ET::None, what.str() << " -> " << etName(e));
      slots.push_back(sl);
    } else
      REQUIRE(e != ET::None, what.str() << " -> reported success");
    check(b, o, slots, cur.base, what.str());
  }
}

PBT_TEST(unknown_member, 10000, 200000) {
  Obj o = fresh(s, pickClass(s));
  Cur cur = descend(s, o);
  ReflectorPureWrap w(cur.inst);
  Snap b = snap(o);
  string n = s.pick<string>({"nope", "", "data", "data00", "member"}) ;
  if (s.coin()) { n = cur.c->mname(s.upto(cur.c->n() - 1)); n += "_"; }
  size_t id = cur.c->n() + s.pick<size_t>({0, 1, 200, 256, 65536, ~size_t(0) / 2});
  string t = s.pick<string>({"1", "true", "{1}", "[1]", ""});
  bool byId = s.coin();
  JenHash h{es::string_view(n)};
  ET e;
  switch (s.upto(5)) {
  case 0: e = byId ? w.SetReflectedValue(id, t) : w.SetReflectedValue(h, t); break;
  case 1: e = byId ? w.SetReflectedValue(id, t, 0) : w.SetReflectedValue(h, t, 0); break;
  case 2: e = byId ? w.SetReflectedValue(id, t, 0, 0) : w.SetReflectedValue(h, t, 0, 0); break;
  case 3: e = byId ? w.SetReflectedValueInt(id, 1) : w.SetReflectedValueInt(h, 1); break;
  case 4: e = byId ? w.SetReflectedValueUInt(id, 1) : w.SetReflectedValueUInt(h, 1); break;
  default: e = byId ? w.SetReflectedValueFloat(id, 1) : w.SetReflectedValueFloat(h, 1); break;
  }
  s.nontrivial(true);
  REQUIRE(e == ET::InvalidDestination, "member " << (byId ? std::to_string(id) : n) << " -> " << etName(e));
  check(b, o, {}, cur.base, "unknown member");
}

// enumerations nobody registered: nothing to look the names up in
REFLECTOR_CREATE(NoReg, ENUM, 2, CLASS, 16, NoRegA, NoRegB, NoRegC = 9)
struct Lost {
  uint32 front;
  NoReg e;
  uint16 mid;
  es::Flags<NoReg, uint16> f;
  NoReg es[3];
  es::Flags<NoReg, uint16> fs[2];
  uint32 tail;
};
REFLECTOR_CREATE(Lost, 1, VARNAMES, front, e, mid, f, es, fs, tail)

PBT_TEST(unregistered_enum, 4000, 100000) {
  static_assert(sizeof(Lost) == 24, "layout");
  string img = s.bulk(sizeof(Lost)), now = img;
  alignas(Lost) char mem[sizeof(Lost)];
  memcpy(mem, img.data(), img.size());
  Lost &l = *reinterpret_cast<Lost *>(mem);
  ReflectorWrap<Lost> w(l);
  const char *names[] = {"e", "f", "es", "fs"};
  size_t m = s.upto(3), ids[] = {1, 3, 4, 5};
  string name = s.pick<string>({"NoRegA", "NoRegB", "NoRegC", "NULL", "Other", "0"});
  if ((m & 1) && s.coin()) name += " | NoRegA";
  string text = m < 2 ? name : "{" + name + ", " + name + (m == 2 ? ", " + name : "") + "}";
  const bool byId = s.coin(), one = m >= 2 && s.coin();
  size_t i = s.upto(1);
  if (one) text = name;
  JenHash h = hashOf(names[m]);
  ET e = one ? (byId ? w.SetReflectedValue(ids[m], text, i) : w.SetReflectedValue(h, text, i)) : byId ? w.SetReflectedValue(ids[m], text) : w.SetReflectedValue(h, text);
  s.nontrivial(true);
  s.label(names[m]);
  s.note([&](std::ostream &os) { os << names[m] << " = " << text << " -> " << etName(e); });
  REQUIRE(e == ET::InvalidDestination || (!one && m >= 2 && e != ET::None), names[m] << " = " << text << " -> " << etName(e));
  now.assign(mem, sizeof mem);
  REQUIRE(now == img, names[m] << " = " << text << " changed the object");
  // and no name to show
  string got = byId ? w.GetReflectedValue(ids[m]) : w.GetReflectedValue(h);
  REQUIRE(got.find("NoReg") == string::npos, names[m] << " reads " << got);
  // the neighbours are reached all the same
  REQUIRE(w.SetReflectedValue(hashOf("tail"), "77") == ET::None && l.tail == 77, "tail");
  REQUIRE_EQ(w.GetReflectedValue(hashOf("mid")), std::to_string(l.mid), "mid");
}
