// C08: text of reflected members, and copying objects member by member as text.
#include "refl_types.hpp"
using pbt::Src;
using std::string;
using ET = Reflector::ErrorType;
static JenHash hashOf(const char *n) { return JenHash(es::string_view(n)); }

static std::vector<string> splitTop(const string &t, const string &what) {
  std::vector<string> r;
  int depth = 0;
  string cur;
  for (char c : t) {
    if (c == '[' || c == '{') depth++;
    if (c == ']' || c == '}') depth--;
    REQUIRE(depth >= 0, what << " unbalanced " << pbt::esc(t));
    if (c == ',' && !depth) { r.push_back(cur); cur.clear(); continue; }
    cur += c;
  }
  r.push_back(cur);
  for (auto &x : r)
    while (!x.empty() && x[0] == ' ') x.erase(0, 1);
  return r;
}
static string trim(string x) {
  while (!x.empty() && (x[0] == ' ' || x[0] == '\t')) x.erase(0, 1);
  while (!x.empty() && (x.back() == ' ' || x.back() == '\t')) x.pop_back();
  return x;
}

// the text form of the value at p
static void checkText(const Desc &d, const char *p, const string &t, const string &what) {
  switch (d.kind) {
  case K_BOOL: REQUIRE_EQ(t, string(*p ? "true" : "false"), what); break;
  case K_INT: {
    int64_t v = (int64_t)(getU(p, d.size) << (64 - d.size * 8)) >> (64 - d.size * 8);
    REQUIRE_EQ(t, std::to_string((long long)v), what);
    break;
  }
  case K_UINT: REQUIRE_EQ(t, std::to_string((unsigned long long)getU(p, d.size)), what); break;
  case K_FLOAT: {
    double v;
    if (d.size == 4) { float f; memcpy(&f, p, 4); v = f; } else memcpy(&v, p, 8);
    char *e;
    double g = strtod(t.c_str(), &e);
    REQUIRE(!t.empty() && !*e, what << " is no number: " << pbt::esc(t));
    if (std::isnan(v)) REQUIRE(std::isnan(g), what << " " << t);
    else if (std::isinf(v) || v == 0) REQUIRE(g == v, what << " " << t);
    else REQUIRE(std::fabs(g - v) <= std::fabs(v) * (d.size == 4 ? 5.0001e-6 : 5.0001e-13), what << " value " << v << " text " << t);
    break;
  }
  case K_ENUM: {
    uint64_t v = getU(p, d.size);
    string n;
    for (auto &i : d.en->items)
      if ((i.second & (~0ULL >> (64 - 8 * d.size))) == v) { n = i.first; break; }
    if (!n.empty()) REQUIRE_EQ(t, n, what);
    break;
  }
  case K_FLAGS: {
    uint64_t v = getU(p, d.size);
    std::set<string> want, got;
    for (auto &i : d.en->items)
      if (v >> i.second & 1) want.insert(i.first);
    if (want.empty()) { REQUIRE_EQ(t, string("NULL"), what); break; }
    string cur;
    for (char c : t + "|") {
      if (c == '|') { REQUIRE(got.insert(trim(cur)).second, what << " names a flag twice: " << t); cur.clear(); }
      else cur += c;
    }
    REQUIRE(want == got, what << " flags " << pbt::hex(&v, d.size) << " printed as " << pbt::esc(t));
    break;
  }
  case K_STRING: REQUIRE_EQ(t, *(const std::string *)p, what); break;
  case K_VECTOR:
  case K_ARRAY: {
    char o = d.kind == K_VECTOR ? '[' : '{', c = d.kind == K_VECTOR ? ']' : '}';
    REQUIRE(t.size() >= 2 && t[0] == o && t.back() == c, what << " is no list: " << pbt::esc(t));
    auto parts = splitTop(t.substr(1, t.size() - 2), what);
    REQUIRE_EQ(parts.size(), d.count, what << " " << pbt::esc(t));
    for (size_t i = 0; i < d.count; i++)
      checkText(*d.sub, p + i * d.sub->size, parts[i], what + "[" + std::to_string(i) + "] of " + t);
    break;
  }
  case K_CLASS: break;
  }
}
static bool hasClass(const Desc &d) { return d.kind == K_CLASS || (d.kind == K_ARRAY && d.sub->kind == K_CLASS); }

static const ClassModel *pickClass(Src &s) {
  if (s.chance(1, 6)) return &classModel<Str>();
  if (s.chance(1, 300)) return s.pick(longClasses());
  return s.pick(podClasses());
}
static void noise(Src &s, Obj &o, const FillOpts &fo) {
  if (!o.c->hasStrings) {
    string r = s.bulk(o.c->size);
    memcpy(o.obj(), r.data(), r.size());
  }
  fillClass(s, *o.c, o.obj(), fo);
}

// the description surrounds the value, spaces aside
static void checkPairValue(const Reflector::KVPairFormat &fmt, const char *before, const char *after, const string &got, const string &t, const string &what) {
  if (!fmt.formatValue) { REQUIRE_EQ(got, t, what); return; }
  REQUIRE(got.find(t) != string::npos, what << " pair " << pbt::esc(got) << " lacks " << pbt::esc(t));
  auto pure = [](const string &x) { string r; for (char c : x) if (c != ' ') r += c; return r; };
  string w = before && *before ? pure(before) + pure(t) + pure(after ? after : "") : pure(t);
  REQUIRE_EQ(pure(got), w, what << " pair " << pbt::esc(got));
}

static void readAll(Src &s, const ClassModel &c, const char *p, ReflectedInstance inst, const string &path) {
  ReflectorPureWrap w(inst);
  REQUIRE_EQ((size_t)w.GetNumReflectedValues(), c.n(), path);
  if (s.chance(1, 4)) { // positions behind the last
    size_t m = c.n() + (s.coin() ? 0 : s.upto(70000));
    auto kv = w.GetReflectedPair(m);
    REQUIRE(kv.name.empty() && kv.value.empty(), path << " position " << m << " of " << c.n() << " is called " << string(kv.name.data(), kv.name.size()));
    REQUIRE(w.GetReflectedValue(m).empty() && w.GetReflectedValue(m, s.upto(3)).empty(), path << " position " << m << " of " << c.n() << " has a value");
  }
  for (size_t m = 0; m < c.n(); m++) {
    string what = path + "." + c.mname(m);
    JenHash h = hashOf(c.mname(m));
    bool byId = s.coin();
    string t = byId ? w.GetReflectedValue(m) : w.GetReflectedValue(h);
    if (!c.bits.empty()) {
      uint64_t v = (getU(p, c.size) >> c.bits[m].pos) & (~0ULL >> (64 - c.bits[m].width));
      if (c.sgn && (v >> (c.bits[m].width - 1))) v |= ~0ULL << (c.bits[m].width - 1); // signed ones extend
      REQUIRE_EQ(t, c.sgn ? std::to_string((long long)v) : std::to_string((unsigned long long)v), what);
      Reflector::KVPairFormat fmt;
      fmt.aliasName = s.coin(), fmt.formatValue = s.coin();
      auto kv = byId ? w.GetReflectedPair(m, fmt) : w.GetReflectedPair(h, fmt);
      REQUIRE_EQ(string(kv.name.data(), kv.name.size()), string(!c.hasNames ? "" : fmt.aliasName && c.bits[m].alias ? c.bits[m].alias : c.mname(m)), what);
      if (!fmt.formatValue) REQUIRE_EQ(kv.value, t, what);
      else REQUIRE(kv.value.find(t) != string::npos, what << " pair " << pbt::esc(kv.value));
      continue;
    }
    const Desc &d = *c.members[m].d;
    const char *q = p + c.members[m].off;
    if (hasClass(d)) {
      size_t n = d.kind == K_ARRAY ? d.count : 1;
      for (size_t i = 0; i < n; i++) {
        const ClassModel *cc = d.kind == K_ARRAY ? d.sub->cls : d.cls;
        readAll(s, *cc, q + i * cc->size, byId ? w.GetReflectedSubClass(m, i) : w.GetReflectedSubClass(h, i), what + "#" + std::to_string(i));
      }
      continue;
    }
    checkText(d, q, t, what);
    Reflector::KVPairFormat fmt;
    fmt.aliasName = s.coin(), fmt.formatValue = s.coin();
    auto kv = byId ? w.GetReflectedPair(m, fmt) : w.GetReflectedPair(h, fmt);
    string name(kv.name.data(), kv.name.size());
    REQUIRE_EQ(name, string(!c.hasNames ? "" : fmt.aliasName && c.members[m].alias ? c.members[m].alias : c.members[m].name), what);
    checkPairValue(fmt, c.members[m].desc1, c.members[m].desc2, kv.value, t, what);
    // elements
    if (d.kind == K_ARRAY || d.kind == K_VECTOR) {
      for (size_t i = 0; i < d.count; i++) {
        string e = byId ? w.GetReflectedValue(m, i) : w.GetReflectedValue(h, i);
        checkText(*d.sub, q + i * d.sub->size, e, what + "[" + std::to_string(i) + "]");
        if (d.kind == K_ARRAY && d.sub->kind == K_VECTOR)
          for (size_t j = 0; j < d.sub->count; j++)
            checkText(*d.sub->sub, q + i * d.sub->size + j * d.sub->sub->size, byId ? w.GetReflectedValue(m, i, j) : w.GetReflectedValue(h, i, j), what + " component");
        if (d.kind == K_ARRAY && (d.sub->kind == K_VECTOR || d.sub->kind == K_FLAGS)) {
          size_t badj = (d.sub->kind == K_VECTOR ? d.sub->count : d.sub->size * 8) + s.pick<size_t>({0, 0, 1, 1000, 65536, ~size_t(0) / 4});
          REQUIRE_EQ(byId ? w.GetReflectedValue(m, i, badj) : w.GetReflectedValue(h, i, badj), string(), what << "[" << i << "] part " << badj);
          if (i + 1 == d.count)
            REQUIRE_EQ(byId ? w.GetReflectedValue(m, d.count, 0) : w.GetReflectedValue(h, d.count, 0), string(), what << " first part of the element behind the last");
        }
        if (d.kind == K_ARRAY && d.sub->kind == K_FLAGS)
          for (size_t j = 0; j < d.sub->size * 8; j++)
            REQUIRE_EQ(byId ? w.GetReflectedValue(m, i, j) : w.GetReflectedValue(h, i, j), string(getU(q + i * d.sub->size, d.sub->size) >> j & 1 ? "true" : "false"), what << " flag " << j);
      }
      size_t bad = d.count + s.pick<size_t>({0, 0, 1, 1000, 65536, ~size_t(0) / 4});
      REQUIRE_EQ(byId ? w.GetReflectedValue(m, bad) : w.GetReflectedValue(h, bad), string(), what << " element " << bad);
    } else if (d.kind == K_FLAGS) {
      for (size_t j = 0; j < d.size * 8; j++)
        REQUIRE_EQ(byId ? w.GetReflectedValue(m, j) : w.GetReflectedValue(h, j), string(getU(q, d.size) >> j & 1 ? "true" : "false"), what << " flag " << j);
      REQUIRE_EQ(byId ? w.GetReflectedValue(m, d.size * 8) : w.GetReflectedValue(h, d.size * 8), string(), what << " flag behind the last");
    }
  }
  REQUIRE_EQ(w.GetReflectedValue(c.n()), string(), path);
}

PBT_TEST(text_of_members, 60000, 3000000) {
  Obj o(pickClass(s));
  FillOpts fo;
  fo.strayFlags = true; // bits no enumerator stands for are no reason to leave out the others
  noise(s, o, fo);
  if (o.c->hasStrings) { // elements of string arrays are separated by commas
    fo.text = true;
    fillClass(s, *o.c, o.obj(), fo);
  }
  string img = o.c->hasStrings ? string() : o.image();
  readAll(s, *o.c, o.obj(), o.inst(), o.c->name);
  s.nontrivial(o.c->n() > 1);
  s.label(o.c->name);
  s.note([&](std::ostream &os) { ReflectedInstance ri = o.inst(); ReflectorPureWrap w(ri); os << o.c->name; for (size_t m = 0; m < o.c->n() && m < 12; m++) os << " " << o.c->mname(m) << "=" << w.GetReflectedValue(m); });
  if (!o.c->hasStrings)
    REQUIRE(img == o.image(), "reading changed the object");
}

static void copyText(Src &s, const ClassModel &c, ReflectedInstance from, ReflectedInstance to, const string &path) {
  ReflectorPureWrap a(from), b(to);
  std::vector<size_t> order;
  for (size_t m = 0; m < c.n(); m++) order.insert(order.begin() + s.upto(order.size()), m);
  for (size_t m : order) {
    string what = path + "." + c.mname(m);
    JenHash h = hashOf(c.mname(m));
    if (c.bits.empty() && hasClass(*c.members[m].d)) {
      const Desc &d = *c.members[m].d;
      size_t n = d.kind == K_ARRAY ? d.count : 1;
      for (size_t i = 0; i < n; i++)
        copyText(s, *(d.kind == K_ARRAY ? d.sub->cls : d.cls), a.GetReflectedSubClass(m, i), b.GetReflectedSubClass(m, i), what);
      continue;
    }
    const Desc *d = c.bits.empty() ? c.members[m].d : nullptr;
    uint64_t how = d && (d->kind == K_ARRAY || d->kind == K_VECTOR) ? s.upto(2) : d && d->kind == K_FLAGS ? s.upto(1) * 3 : 0;
    if (how == 1 && d->kind == K_ARRAY && d->sub->kind == K_VECTOR) how = 2;
    else if (how == 2 && !(d->kind == K_ARRAY && d->sub->kind == K_VECTOR)) how = 1;
    string t;
    ET e = ET::None;
    switch (how) {
    case 0:
      t = a.GetReflectedValue(m);
      e = s.coin() ? b.SetReflectedValue(m, t) : b.SetReflectedValue(h, t);
      REQUIRE(e == ET::None, what << " refuses its own text " << pbt::esc(t) << " error " << (int)e);
      break;
    case 1:
      for (size_t i = 0; i < d->count; i++) {
        t = a.GetReflectedValue(m, i);
        e = b.SetReflectedValue(m, t, i);
        REQUIRE(e == ET::None, what << "[" << i << "] refuses " << pbt::esc(t) << " error " << (int)e);
      }
      break;
    case 2:
      for (size_t i = 0; i < d->count; i++)
        for (size_t j = 0; j < d->sub->count; j++) {
          t = a.GetReflectedValue(m, i, j);
          e = b.SetReflectedValue(m, t, i, j);
          REQUIRE(e == ET::None, what << "[" << i << "][" << j << "] refuses " << pbt::esc(t) << " error " << (int)e);
        }
      break;
    default:
      for (size_t i = 0; i < d->size * 8; i++) {
        t = a.GetReflectedValue(m, i);
        e = b.SetReflectedValue(m, t, i);
        REQUIRE(e == ET::None, what << " flag " << i << " refuses " << pbt::esc(t) << " error " << (int)e);
      }
    }
  }
}
PBT_TEST(copy_by_text, 60000, 3000000) {
  const ClassModel *c = pickClass(s);
  Obj a(c), b(c);
  FillOpts fo;
  fo.text = true;
  noise(s, a, fo);
  noise(s, b, FillOpts());
  s.nontrivial(c->n() > 1);
  s.label(c->name);
  string why, img = c->hasStrings ? string() : a.image();
  copyText(s, *c, a.inst(), b.inst(), c->name);
  REQUIRE(sameClass(*c, a.obj(), b.obj(), &why), c->name << "." << why);
  if (!c->hasStrings) REQUIRE(img == a.image(), "reading changed the source");
}

// infinities and not-a-number, which the generators above leave out
PBT_TEST(special_floats, 2000, 50000) {
  Leaf a{}, b{};
  float vals[] = {INFINITY, -INFINITY, NAN, std::numeric_limits<float>::max(), -std::numeric_limits<float>::max(), -0.f};
  a.data1 = vals[s.upto(5)];
  ReflectorWrap<Leaf> wa(a), wb(b);
  string t = wa.GetReflectedValue("data1");
  s.nontrivial(true);
  REQUIRE(wb.SetReflectedValue("data1", t) == ET::None, t);
  REQUIRE((std::isnan(a.data1) && std::isnan(b.data1)) || std::fabs(b.data1 / a.data1 - 1) < 1e-5 || a.data1 == b.data1, t << " -> " << b.data1);
}

struct CStr { const char *text; int32 after; void ReflectorTag(); };
REFLECTOR_CREATE(CStr, 1, VARNAMES, text, after)
PBT_TEST(c_strings, 2000, 50000) {
  string str = genStr(s, 0);
  CStr c{s.chance(1, 8) ? nullptr : str.c_str(), 5};
  ReflectorWrap<CStr> w(c);
  s.nontrivial(!str.empty());
  REQUIRE_EQ(w.GetReflectedValue("text"), c.text ? str : string(), "C string member");
  const char *was = c.text;
  REQUIRE(w.SetReflectedValue("text", "other") != ET::None && c.text == was, "a borrowed string cannot be assigned");
}

// Known finding: elements of string arrays are written without quotes.
PBT_PROBE(string_array_separators) {
  Obj a(&classModel<Str>()), b(&classModel<Str>());
  ((Str *)a.obj())->arr[0] = "one, two";
  ReflectedInstance ia = a.inst(), ib = b.inst();
  ReflectorPureWrap wa(ia), wb(ib);
  wb.SetReflectedValue("arr", wa.GetReflectedValue("arr"));
  REQUIRE_EQ(((Str *)b.obj())->arr[0], string("one, two"), "string array element with a comma");
}
