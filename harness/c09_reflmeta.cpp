// C09: reflected type descriptions match the declarations they come from.
#include "gen_reflcls.hpp"
#include "refl_types.hpp"
#include <set>
using pbt::Src;
using std::string;
using ET = Reflector::ErrorType;
static string sv(es::string_view v) { return string(v.data(), v.size()); }
static string cs(const char *c) { return c ? string(c) : string("<null>"); }

// reference name hash, 64-bit accumulator cut to 32 bits per character
static uint32_t refHash(const string &n) {
  uint64_t r = 0;
  for (unsigned char c : n) {
    r += c;
    r += r << 10;
    r ^= r >> 6;
    r &= 0xffffffffu;
  }
  r += r << 3;
  r ^= r >> 11;
  r += r << 15;
  return (uint32_t)r;
}

struct Probe : ReflectorPureWrap {
  using ReflectorPureWrap::ReflectorPureWrap;
  const reflType *byId(size_t i) const { return GetReflectedType(i); }
  const reflType *byHash(JenHash h) const { return GetReflectedType(h); }
};

static const std::vector<const ClassModel *> &allClasses() {
  static std::vector<const ClassModel *> v = [] {
    auto r = podClasses();
    r.push_back(&classModel<Str>());
    for (auto c : genClasses()) r.push_back(c);
    for (auto c : longClasses()) r.push_back(c);
    return r;
  }();
  return v;
}
static REFType refKind(Kind k) {
  switch (k) {
  case K_BOOL: return REFType::Bool;
  case K_INT: return REFType::Integer;
  case K_UINT: return REFType::UnsignedInteger;
  case K_FLOAT: return REFType::FloatingPoint;
  case K_ENUM: return REFType::Enum;
  case K_FLAGS: return REFType::EnumFlags;
  case K_STRING: return REFType::String;
  case K_VECTOR: return REFType::Vector;
  case K_ARRAY: return REFType::Array;
  case K_CLASS: return REFType::Class;
  }
  return REFType::None;
}
static REFType refKind(const Desc &d) { return d.kind == K_CLASS && !d.cls->bits.empty() ? REFType::BitFieldClass : refKind(d.kind); }
static uint32_t wantTypeHash(const Desc &d) {
  switch (d.kind) {
  case K_ENUM:
  case K_FLAGS: return refHash(d.en->name);
  case K_CLASS: return d.cls->hasNames ? refHash(d.cls->name) : 0;
  case K_ARRAY: return wantTypeHash(*d.sub);
  case K_VECTOR: { // packed kind, size and count
    return (uint32_t)refKind(d.sub->kind) | (uint32_t)d.sub->size << 8 | (uint32_t)d.count << 16;
  }
  default: return 0;
  }
}

static void checkMember(const ClassModel &c, size_t m, const reflType &t, const string &what) {
  REQUIRE_EQ(t.valueNameHash.raw(), refHash(c.mname(m)), what << " name hash");
  REQUIRE_EQ((int)t.ID, (int)m, what << " position");
  if (!c.bits.empty()) {
    REQUIRE_EQ((int)t.type, (int)REFType::BitFieldMember, what);
    REQUIRE_EQ((int)t.subType, (int)(c.sgn ? REFType::Integer : REFType::UnsignedInteger), what);
    REQUIRE_EQ((size_t)t.subSize, c.bits[m].width, what << " width");
    REQUIRE_EQ((size_t)t.offset, c.bits[m].pos, what << " bit position");
    return;
  }
  const MemberModel &mm = c.members[m];
  const Desc &d = *mm.d;
  REQUIRE_EQ((size_t)t.offset, mm.off, what << " offset");
  REQUIRE_EQ((int)t.type, (int)refKind(d), what << " kind");
  REQUIRE_EQ(t.typeHash.raw(), wantTypeHash(d), what << " type hash");
  const Desc &e = d.kind == K_ARRAY || d.kind == K_VECTOR ? *d.sub : d;
  if (d.kind == K_ARRAY || d.kind == K_VECTOR) {
    REQUIRE_EQ((int)t.subType, (int)refKind(e), what << " element kind");
    REQUIRE_EQ((size_t)t.numItems, d.count, what << " element count");
  }
  if (d.kind != K_STRING) REQUIRE_EQ((size_t)t.subSize, e.size, what << " element size");
}

static void checkTable(const ClassModel &c) {
  const reflectorStatic *st = c.stat;
  string what = string("class ") + c.name;
  REQUIRE_EQ((size_t)st->nTypes, c.n(), what << " member count");
  REQUIRE_EQ(st->classHash.raw(), c.hasNames ? refHash(c.name) : 0u, what << " hash");
  if (c.hasNames) {
    REQUIRE_EQ(cs(st->className), string(c.name), what);
    REQUIRE(st->typeNames, what << " has no member names");
  } else {
    REQUIRE(!st->className && !st->typeNames, what << " keeps names");
  }
  REQUIRE_EQ(!!st->typeAliases, c.hasExt, what << " aliases");
  REQUIRE_EQ(!!st->typeAliasHashes, c.hasExt, what << " alias hashes");
  REQUIRE_EQ(!!st->typeDescs, c.hasExt, what << " descriptions");
  for (size_t m = 0; m < c.n(); m++) {
    string w = what + "." + c.mname(m);
    checkMember(c, m, st->types[m], w);
    if (c.hasNames) REQUIRE_EQ(cs(st->typeNames[m]), string(c.mname(m)), w);
    if (!c.hasExt) continue;
    const char *al = c.bits.empty() ? c.members[m].alias : c.bits[m].alias;
    REQUIRE_EQ(cs(st->typeAliases[m]), cs(al), w << " alias");
    REQUIRE_EQ(st->typeAliasHashes[m].raw(), al ? refHash(al) : 0u, w << " alias hash");
    if (c.bits.empty()) {
      const MemberModel &mm = c.members[m];
      REQUIRE_EQ(sv(st->typeDescs[m].part1), string(mm.desc1 ? mm.desc1 : ""), w << " description");
      REQUIRE_EQ(sv(st->typeDescs[m].part2), string(mm.desc2 ? mm.desc2 : ""), w << " description");
    }
  }
}

static string otherName(Src &s, const ClassModel &c) {
  string n;
  switch (s.upto(4)) {
  case 0: n = "n" + s.ident(12); break;
  case 1: n = c.mname(s.upto(c.n() - 1)); n += s.coin() ? "_" : " "; break;
  case 2: n = c.mname(s.upto(c.n() - 1)); n.pop_back(); break;
  case 3: n = c.name; break;
  default: n = c.mname(s.upto(c.n() - 1)); n[0] ^= 0x20; break;
  }
  return n;
}

PBT_TEST(lookup, 60000, 3000000) {
  const ClassModel &c = *s.pick(allClasses());
  std::unique_ptr<char[]> mem;
  checkTable(c);
  // lookups need no object
  alignas(16) static char dummy[16];
  ReflectedInstance inst(c.stat, dummy);
  Probe w(inst);
  REQUIRE_EQ((size_t)w.GetNumReflectedValues(), c.n(), c.name);
  REQUIRE_EQ(w.UseNames(), c.hasNames, c.name);
  REQUIRE_EQ(sv(w.GetClassName()), string(c.hasNames ? c.name : ""), c.name);
  size_t ops = 1 + s.upto(5);
  for (size_t o = 0; o < ops; o++) {
    switch (s.upto(3)) {
    case 0: { // by name, position and alias: the same row
      size_t m = s.upto(c.n() - 1);
      string what = string(c.name) + "." + c.mname(m);
      string heap(c.mname(m));
      const reflType *a = w.byHash(JenHash(es::string_view(heap.data(), heap.size()))), *b = w.byId(m);
      REQUIRE(a, what << " is not found by name");
      REQUIRE(b, what << " is not found by position");
      checkMember(c, m, *a, what + " by name");
      checkMember(c, m, *b, what + " by position");
      const char *al = c.bits.empty() ? c.members[m].alias : c.bits[m].alias;
      if (al) {
        const reflType *x = w.byHash(JenHash(es::string_view(al)));
        REQUIRE(x, what << " is not found by alias " << al);
        checkMember(c, m, *x, what + " by alias");
        s.label("alias");
      }
      bool arr = c.bits.empty() && c.members[m].d->kind == K_ARRAY;
      bool cls = c.bits.empty() && (c.members[m].d->kind == K_CLASS || (arr && c.members[m].d->sub->kind == K_CLASS));
      JenHash h(es::string_view(heap.data(), heap.size()));
      REQUIRE_EQ(w.IsArray(m), arr, what);
      REQUIRE_EQ(w.IsArray(h), arr, what);
      REQUIRE_EQ(w.IsReflectedSubClass(m), cls, what);
      REQUIRE_EQ(w.IsReflectedSubClass(h), cls, what);
      s.label("member");
      break;
    }
    case 1: { // undeclared names
      string n = otherName(s, c);
      uint32_t h = refHash(n);
      bool known = !h; // the hash of no name
      for (size_t m = 0; m < c.n(); m++) {
        const char *al = c.bits.empty() ? c.members[m].alias : c.bits[m].alias;
        if (refHash(c.mname(m)) == h || (al && refHash(al) == h)) known = true;
      }
      if (known) { s.label("collision"); break; }
      JenHash jh(es::string_view(n.data(), n.size()));
      REQUIRE(!w.byHash(jh), c.name << " finds undeclared " << pbt::esc(n));
      REQUIRE(!w.IsArray(jh) && !w.IsReflectedSubClass(jh), c.name << " " << pbt::esc(n));
      REQUIRE_EQ(w.GetReflectedValue(jh), string(), c.name << " " << pbt::esc(n));
      REQUIRE(w.SetReflectedValue(jh, "1") == Reflector::ErrorType::InvalidDestination, c.name << " sets undeclared " << pbt::esc(n));
      s.label("undeclared");
      break;
    }
    case 2: { // positions behind the end
      size_t id = c.n() + s.pick<size_t>({0, 1, 2, 255, 256, 65536, ~size_t(0) / 2});
      REQUIRE(!w.byId(id), c.name << " has position " << id);
      REQUIRE(!w.IsArray(id) && !w.IsReflectedSubClass(id), c.name << " position " << id);
      REQUIRE(w.SetReflectedValue(id, "1") == Reflector::ErrorType::InvalidDestination, c.name << " sets position " << id);
      s.label("behind");
      break;
    }
    case 3: { // the empty name belongs to nobody
      REQUIRE(!w.byHash(JenHash{}), c.name << " finds a member by the empty hash");
      s.label("empty");
      break;
    }
    }
  }
  s.nontrivial(c.n() > 1 || !c.bits.empty());
  s.note([&](std::ostream &os) { os << c.name << ", " << c.n() << " members, " << ops << " lookups"; });
}

// a description that ends earlier than the class: what lies behind is no member
PBT_TEST(shortened, 30000, 1000000) {
  const ClassModel *pc;
  do pc = s.pick(podClasses()); while (pc->n() < 2);
  const ClassModel &c = *pc;
  size_t k = s.range(1, c.n() - 1);
  alignas(reflectorStatic) char raw[sizeof(reflectorStatic)];
  memcpy(raw, c.stat, sizeof raw);
  uint32 nt = (uint32)k;
  memcpy(raw + offsetof(reflectorStatic_data, nTypes), &nt, sizeof nt);
  auto shortStat = reinterpret_cast<const reflectorStatic *>(raw);
  Obj o(&c);
  FillOpts fo;
  fillClass(s, c, o.obj(), fo);
  string before = o.image();
  ReflectedInstance i1(shortStat, o.obj()), i2 = o.inst();
  Probe w(i1), full(i2);
  REQUIRE_EQ((size_t)w.GetNumReflectedValues(), k, c.name);
  std::set<uint32_t> known;
  for (size_t m = 0; m < k; m++) {
    known.insert(refHash(c.mname(m)));
    const char *al = c.bits.empty() ? c.members[m].alias : c.bits[m].alias;
    if (al) known.insert(refHash(al));
  }
  size_t ops = 1 + s.upto(4);
  for (size_t q = 0; q < ops; q++) {
    size_t id = s.chance(1, 3) ? k : s.chance(1, 8) ? c.n() + s.upto(300) : s.range(k, c.n() - 1);
    bool byId = s.coin() || id >= c.n();
    if (!byId && known.count(refHash(c.mname(id)))) byId = true;
    JenHash h = id < c.n() ? JenHash(es::string_view(c.mname(id))) : JenHash{};
    size_t sub = s.upto(2), el = s.upto(2);
    string what = string(c.name) + " of " + std::to_string(k) + " members, " + (byId ? "position " + std::to_string(id) : string(c.mname(id)));
    string t = s.pick<string>({"1", "true", "{1}", "[1]", "{2, 3}"});
    const ET INV = ET::InvalidDestination;
    switch (s.upto(6)) {
    case 0: REQUIRE(byId ? !w.byId(id) : !w.byHash(h), what << " is found"); break;
    case 1: REQUIRE(byId ? !w.IsArray(id) && !w.IsReflectedSubClass(id) : !w.IsArray(h) && !w.IsReflectedSubClass(h), what << " has a kind"); break;
    case 2: {
      string g = s.coin() ? (byId ? w.GetReflectedValue(id) : w.GetReflectedValue(h)) : s.coin() ? (byId ? w.GetReflectedValue(id, sub) : w.GetReflectedValue(h, sub)) : byId ? w.GetReflectedValue(id, sub, el) : w.GetReflectedValue(h, sub, el);
      REQUIRE_EQ(g, string(), what << " has a value");
      break;
    }
    case 3: {
      auto kv = byId ? w.GetReflectedPair(id) : w.GetReflectedPair(h);
      REQUIRE(kv.name.empty() && kv.value.empty(), what << " has a name or value: " << sv(kv.name) << " " << pbt::esc(kv.value));
      break;
    }
    case 4: REQUIRE((byId ? w.SetReflectedValue(id, t) : w.SetReflectedValue(h, t)) == INV && (byId ? w.SetReflectedValue(id, t, sub) : w.SetReflectedValue(h, t, sub)) == INV && (byId ? w.SetReflectedValue(id, t, sub, el) : w.SetReflectedValue(h, t, sub, el)) == INV, what << " can be set to text"); break;
    case 5: REQUIRE((byId ? w.SetReflectedValueInt(id, 1, sub) : w.SetReflectedValueInt(h, 1, sub)) == INV && (byId ? w.SetReflectedValueUInt(id, 1, sub) : w.SetReflectedValueUInt(h, 1, sub)) == INV && (byId ? w.SetReflectedValueFloat(id, 1, sub) : w.SetReflectedValueFloat(h, 1, sub)) == INV, what << " can be set to a number"); break;
    default: {
      ReflectedInstance i = byId ? w.GetReflectedSubClass(id, sub) : w.GetReflectedSubClass(h, sub), none;
      REQUIRE(!memcmp((void *)&i, (void *)&none, sizeof i), what << " has a nested object");
    }
    }
    size_t m = s.upto(k - 1);
    REQUIRE_EQ(w.GetReflectedValue(m), full.GetReflectedValue(m), c.name << "." << c.mname(m) << " of a shorter description");
  }
  REQUIRE(o.image() == before, c.name << " changed");
  s.nontrivial();
  s.note([&](std::ostream &os) { os << c.name << " ends at " << k << " of " << c.n(); });
}

// nested classes: the instance returned is the nested object
static void paint(char *p, size_t n, char v) { memset(p, v, n); }
PBT_TEST(nested_objects, 60000, 3000000) {
  std::vector<const ClassModel *> withCls;
  for (auto c : podClasses())
    for (auto &m : c->members)
      if (m.d->kind == K_CLASS || (m.d->kind == K_ARRAY && m.d->sub->kind == K_CLASS)) { withCls.push_back(c); break; }
  const ClassModel &c = *s.pick(withCls);
  Obj o(&c);
  string r = s.bulk(c.size);
  memcpy(o.obj(), r.data(), r.size());
  FillOpts fo;
  fillClass(s, c, o.obj(), fo);
  const ClassModel *cur = &c;
  char *p = o.obj();
  ReflectedInstance inst = o.inst();
  string path = c.name;
  size_t depth = 0;
  while (true) {
    std::vector<size_t> subs;
    for (size_t i = 0; i < cur->members.size(); i++) {
      const Desc &d = *cur->members[i].d;
      if (d.kind == K_CLASS || (d.kind == K_ARRAY && d.sub->kind == K_CLASS)) subs.push_back(i);
    }
    if (subs.empty()) break;
    size_t m = s.pick(subs);
    const Desc &d = *cur->members[m].d;
    size_t n = d.kind == K_ARRAY ? d.count : 1;
    bool bad = s.chance(1, 8);
    size_t i = bad ? n + s.pick<size_t>({0, 1, 7, 255, 1000000}) : s.upto(n - 1);
    const Reflector *cw;
    ReflectorPureWrap w(inst);
    cw = &w;
    JenHash h{es::string_view(cur->members[m].name)};
    ReflectedInstance sub;
    if (!i && s.coin()) // the first by default
      switch (s.upto(3)) {
      case 0: sub = w.GetReflectedSubClass(h); break;
      case 1: sub = w.GetReflectedSubClass(m); break;
      case 2: sub = cw->GetReflectedSubClass(h); break;
      case 3: sub = cw->GetReflectedSubClass(m); break;
      }
    else switch (s.upto(3)) {
    case 0: sub = w.GetReflectedSubClass(h, i); break;
    case 1: sub = w.GetReflectedSubClass(m, i); break;
    case 2: sub = cw->GetReflectedSubClass(h, i); break;
    case 3: sub = cw->GetReflectedSubClass(m, i); break;
    }
    string what = path + "." + cur->members[m].name + "#" + std::to_string(i);
    if (bad) {
      if (d.kind == K_ARRAY) {
        // no object: nothing is described
        REQUIRE(memcmp(&sub, std::unique_ptr<ReflectedInstance>(new ReflectedInstance).get(), sizeof(void *)) == 0, what << " behind the end is an object");
        s.label("behind");
        s.nontrivial();
      }
      break;
    }
    const ClassModel *nc = d.kind == K_ARRAY ? d.sub->cls : d.cls;
    char *q = p + cur->members[m].off + i * nc->size;
    ReflectorPureWrap sw(sub);
    REQUIRE_EQ((size_t)sw.GetNumReflectedValues(), nc->n(), what);
    REQUIRE_EQ(sv(sw.GetClassName()), string(nc->hasNames ? nc->name : ""), what);
    // writing through it changes the nested object
    size_t im = s.upto(nc->n() - 1);
    string before = o.image();
    size_t lo, hi;
    if (!nc->bits.empty()) {
      uint64_t v = s.bits(nc->bits[im].width);
      size_t wd = nc->bits[im].width;
      string text = nc->sgn ? std::to_string((long long)(v << (64 - wd)) >> (64 - wd)) : std::to_string((unsigned long long)v);
      REQUIRE(sw.SetReflectedValue(im, text.c_str()) == Reflector::ErrorType::None, what);
      lo = 0, hi = nc->size;
      REQUIRE_EQ((getU(q, nc->size) >> nc->bits[im].pos) & (~0ULL >> (64 - nc->bits[im].width)), v, what);
    } else {
      const Desc &md = *nc->members[im].d;
      lo = nc->members[im].off, hi = lo + md.size;
      if (md.kind == K_INT || md.kind == K_UINT || md.kind == K_FLOAT || md.kind == K_BOOL) {
        int64_t v = md.kind == K_BOOL ? s.coin() : s.irange(0, 100);
        REQUIRE(sw.SetReflectedValue(im, md.kind == K_BOOL ? (v ? "true" : "false") : std::to_string(v).c_str()) == Reflector::ErrorType::None, what << "." << nc->mname(im));
        string t = sw.GetReflectedValue(im);
        if (md.kind == K_INT || md.kind == K_UINT) REQUIRE_EQ((int64_t)getU(q + lo, md.size), v, what << "." << nc->mname(im));
        s.label("write");
      }
    }
    string after = o.image();
    size_t base = q - o.mem;
    for (size_t b = 0; b < before.size(); b++)
      if (before[b] != after[b]) REQUIRE(b >= base + lo && b < base + hi, what << "." << nc->mname(im) << " changed byte " << (int64_t)b - (int64_t)base << " of the nested object");
    s.nontrivial();
    depth++;
    p = q, cur = nc, inst = sub, path = what;
    if (s.chance(1, 6)) break;
  }
  static const char *const depths[] = {"depth 0", "depth 1", "depth 2", "depth 3", "depth 4"};
  s.label(depths[depth]);
  s.note([&](std::ostream &os) { os << path; });
}

// ---------------------------------------------------------------------- enumerations
struct EnumRow { const EnumModel *m; ReflectedEnum (*get)(); JenHash hash; };
template <class E> static EnumRow enumRow() { return {&enumModel<E>(), &GetReflectedEnum<E>, _EnumWrap<E>::GetHash()}; }
static const std::vector<EnumRow> &allEnums() {
  static std::vector<EnumRow> v = [] {
    registerCorpus();
    std::vector<EnumRow> r{enumRow<En8>(), enumRow<En16>(), enumRow<En32>(), enumRow<En64>(), enumRow<EnPlain>(), enumRow<EnNeg>(), enumRow<EnNegHex>(), enumRow<EnOne>(), enumRow<Fl8>(), enumRow<Fl16>(), enumRow<Fl32>(), enumRow<Fl64>()};
#define X(e) r.push_back(enumRow<e>());
    ALL_GEN_ENUMS(X)
#undef X
    return r;
  }();
  return v;
}
static void checkEnum(const EnumModel &m, const ReflectedEnum &e) {
  REQUIRE_EQ(sv(e.name), string(m.name), "enumeration name");
  REQUIRE_EQ(e.hash.raw(), refHash(m.name), m.name);
  REQUIRE_EQ(e.size(), m.items.size(), m.name);
  uint64_t mask = ~0ULL >> (64 - 8 * m.size);
  for (size_t i = 0; i < m.items.size(); i++) {
    REQUIRE_EQ(sv(e[i]), m.items[i].first, m.name << " name " << i);
    REQUIRE_EQ(e.values[i] & mask, m.items[i].second & mask, m.name << "::" << m.items[i].first);
  }
  size_t n = 0;
  for (auto &x : e) { REQUIRE_EQ(sv(x), m.items[n].first, m.name); n++; }
  REQUIRE_EQ(n, m.items.size(), m.name);
}
PBT_TEST(enumerations, 30000, 2000000) {
  const EnumRow &r = s.pick(allEnums());
  const EnumModel &m = *r.m;
  bool stored = s.coin() && REFEnumStorage.count(r.hash);
  ReflectedEnum e = stored ? REFEnumStorage.at(r.hash) : r.get();
  checkEnum(m, e);
  for (size_t k = 0; k < 3; k++) {
    size_t i = s.upto(m.items.size() - 1);
    uint64_t v = s.chance(1, 4) ? s.bits(64) : e.values[i];
    string want;
    for (size_t j = 0; j < m.items.size(); j++)
      if (e.values[j] == v) { want = m.items[j].first; break; }
    REQUIRE_EQ(sv(e.find(v)), want, m.name << " name of " << v);
  }
  bool threw = false;
  try { e.at(m.items.size()); } catch (const std::out_of_range &) { threw = true; }
  REQUIRE(threw, m.name << " has an item behind the last");
  s.nontrivial(m.items.size() > 1);
  s.label(stored ? "registry" : "direct");
  s.note([&](std::ostream &os) { os << m.name << " " << m.items.size() << " items"; });
}
PBT_TEST(registry, 2000, 200000) {
  registerCorpus();
  // every registered class is found under its hash with its own table
  static const ClassModel *reg[] = {&classModel<Leaf>(), &classModel<Leaf2>(), &classModel<Mid>(), &classModel<Bf8>(), &classModel<Bf16>(), &classModel<Bf32>(), &classModel<Bf64>(), &classModel<Bw32>(), &classModel<Bw64>(), &classModel<Bx64>(), &classModel<Bx16>()};
  const ClassModel &c = *reg[s.upto(sizeof(reg) / sizeof(*reg) - 1)];
  auto it = REFSubClassStorage.find(JenHash(es::string_view(c.name)));
  REQUIRE(it != REFSubClassStorage.end(), c.name << " is not registered");
  REQUIRE(it->second == c.stat, c.name << " is registered with another table");
  string n = "n" + s.ident(10);
  bool known = false;
  for (auto r : reg) if (refHash(r->name) == refHash(n)) known = true;
  if (!known) REQUIRE(!REFSubClassStorage.count(JenHash(es::string_view(n.data(), n.size()))), n << " is registered");
  s.nontrivial();
  s.note([&](std::ostream &os) { os << c.name << " / " << n; });
}

// wrappers over typed objects, const and not, and classes that are reflectors themselves
struct Base09 : ReflectorBase<Base09> {
  int32 a;
  float b[2];
  En8 e;
  void ReflectorTag();
};
REFLECTOR_CREATE(Base09, 1, VARNAMES, a, b, e)
PBT_TEST(wrappers, 20000, 1000000) {
  registerCorpus();
  Leaf l{(int32)s.bits(32), 0.5f};
  const Leaf cl = l;
  ReflectorWrap<Leaf> w(l), wp(&l);
  ReflectorWrap<const Leaf> cw(cl);
  Base09 b;
  b.a = (int32)s.bits(32);
  b.b[0] = 1, b.b[1] = 2, b.e = En8::A5;
  auto same = [&](const Reflector &r, int32 v, const char *n) {
    REQUIRE_EQ(r.GetReflectedValue((size_t)0), std::to_string(v), n);
  };
  same(w, l.data0, "wrapper");
  same(wp, l.data0, "pointer wrapper");
  same(cw, cl.data0, "const wrapper");
  same(b, b.a, "reflector base");
  int32 v = (int32)s.bits(32);
  REQUIRE(w.SetReflectedValueInt(JenHash("data0"), v) == Reflector::ErrorType::None, "wrapper");
  REQUIRE_EQ(l.data0, v, "wrapper");
  same(wp, v, "pointer wrapper");
  REQUIRE(b.SetReflectedValueInt((size_t)0, v) == Reflector::ErrorType::None, "base");
  REQUIRE_EQ(b.a, v, "base");
  REQUIRE_EQ(b.GetReflectedValue(JenHash("e")), string("A5"), "base");
  REQUIRE_EQ(b.GetReflectedValue(JenHash("b")), string("{1, 2}"), "base");
  REQUIRE_EQ(sv(b.GetClassName()), string("Base09"), "base");
  s.nontrivial(v != 0);
  s.note([&](std::ostream &os) { os << "set " << v; });
}
