// C11: saved type descriptions load back identical.
#include "gen_reflcls.hpp"
#include "refl_types.hpp"
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/reflector_io.hpp"
#include <cstring>
#include <deque>
#include <memory>
#include <sstream>
using pbt::Src;
using std::string;
static string sv(es::string_view v) { return string(v.data(), v.size()); }
static string cs(const char *c) { return c ? string("'") + c : string("<null>"); }

static const std::vector<const ClassModel *> &allClasses() {
  static std::vector<const ClassModel *> v = [] {
    auto r = podClasses();
    r.push_back(&classModel<Str>());
    for (auto c : genClasses()) r.push_back(c);
    for (auto c : longClasses()) r.push_back(c);
    return r;
  }();
  return v;
}
struct EnumRow { const EnumModel *m; ReflectedEnum (*get)(); };
template <class E> static EnumRow enumRow() { return {&enumModel<E>(), &GetReflectedEnum<E>}; }
static const std::vector<EnumRow> &allEnums() {
  static std::vector<EnumRow> v = [] {
    std::vector<EnumRow> r{enumRow<En8>(), enumRow<En16>(), enumRow<En32>(), enumRow<En64>(), enumRow<EnPlain>(), enumRow<EnNeg>(), enumRow<EnNegHex>(), enumRow<EnOne>(), enumRow<Fl8>(), enumRow<Fl16>(), enumRow<Fl32>(), enumRow<Fl64>()};
#define X(e) r.push_back(enumRow<e>());
    ALL_GEN_ENUMS(X)
#undef X
    return r;
  }();
  return v;
}

// the forms taking the type itself
struct AddRow { const reflectorStatic *stat; void (*add)(ReflectorIO &); };
template <class C> static AddRow addRow() { return {classModel<C>().stat, [](ReflectorIO &io) { io.AddClass<C>(); }}; }
static const std::vector<AddRow> &addRows() {
  static const std::vector<AddRow> v{addRow<Str>(), addRow<Wide>(), addRow<Far>()};
  return v;
}
struct Set {
  std::vector<const ClassModel *> classes;
  std::vector<const EnumRow *> enums;
};
static Set genSet(Src &s) {
  Set r;
  size_t nc = s.size(12), ne = s.size(8);
  if (s.chance(1, 150)) nc = s.range(20, 250), ne = s.range(1, 150), s.label("long file"); // longer than 64 KB
  for (size_t i = 0; i < nc; i++) r.classes.push_back(s.pick(allClasses()));
  for (size_t i = 0; i < ne; i++) r.enums.push_back(&s.pick(allEnums()));
  return r;
}
static void fill(ReflectorIO &io, const Set &x) {
  for (auto c : x.classes) {
    auto r = std::find_if(addRows().begin(), addRows().end(), [&](const AddRow &a) { return a.stat == c->stat; });
    if (r != addRows().end()) r->add(io);
    else io.AddClass(c->stat);
  }
  for (auto e : x.enums) {
    if (e->m == &enumModel<En16>()) io.AddEnum<En16>();
    else if (e->m == &enumModel<Fl32>()) io.AddEnum<Fl32>();
    else io.AddEnum(e->get());
  }
}
static void sameClass(const reflectorStatic &a, const reflectorStatic &b, const string &what) {
  REQUIRE_EQ(b.classHash.raw(), a.classHash.raw(), what);
  REQUIRE_EQ(b.nTypes, a.nTypes, what);
  REQUIRE_EQ(cs(b.className), cs(a.className), what);
  REQUIRE_EQ(!!b.typeNames, !!a.typeNames, what << "names");
  REQUIRE_EQ(!!b.typeAliases, !!a.typeAliases, what << "aliases");
  REQUIRE_EQ(!!b.typeAliasHashes, !!a.typeAliasHashes, what << "alias hashes");
  REQUIRE_EQ(!!b.typeDescs, !!a.typeDescs, what << "descriptions");
  for (size_t m = 0; m < a.nTypes; m++) {
    string w = what + std::to_string(m) + " ";
    if (a.typeNames) w += a.typeNames[m] + string(" ");
    const reflType &s = a.types[m], &t = b.types[m];
    REQUIRE_EQ((int)t.type, (int)s.type, w << "kind");
    REQUIRE_EQ((int)t.subType, (int)s.subType, w << "element kind");
    REQUIRE_EQ((int)t.subSize, (int)s.subSize, w << "size");
    REQUIRE_EQ((int)t.ID, (int)s.ID, w << "position");
    REQUIRE_EQ(t.numItems, s.numItems, w << "count");
    REQUIRE_EQ(t.offset, s.offset, w << "offset");
    REQUIRE_EQ(t.valueNameHash.raw(), s.valueNameHash.raw(), w << "name hash");
    REQUIRE_EQ(t.typeHash.raw(), s.typeHash.raw(), w << "type hash");
    if (a.typeNames) REQUIRE_EQ(cs(b.typeNames[m]), cs(a.typeNames[m]), w << "name");
    if (a.typeAliases) REQUIRE_EQ(cs(b.typeAliases[m]), cs(a.typeAliases[m]), w << "alias");
    if (a.typeAliasHashes) REQUIRE_EQ(b.typeAliasHashes[m].raw(), a.typeAliasHashes[m].raw(), w << "alias hash");
    if (a.typeDescs) {
      REQUIRE_EQ(sv(b.typeDescs[m].part1), sv(a.typeDescs[m].part1), w << "description");
      REQUIRE_EQ(sv(b.typeDescs[m].part2), sv(a.typeDescs[m].part2), w << "description");
    }
  }
}
static void same(const Set &x, const ReflectorIO &io) {
  REQUIRE_EQ(io.Classes().size(), x.classes.size(), "classes");
  REQUIRE_EQ(io.Enums().size(), x.enums.size(), "enumerations");
  for (size_t c = 0; c < x.classes.size(); c++) sameClass(*x.classes[c]->stat, *io.Classes()[c], string("class ") + x.classes[c]->name + " ");
  for (size_t e = 0; e < x.enums.size(); e++) {
    const EnumModel &m = *x.enums[e]->m;
    const ReflectedEnum &b = io.Enums()[e];
    REQUIRE_EQ(sv(b.name), string(m.name), "enumeration");
    REQUIRE_EQ(b.hash.raw(), x.enums[e]->get().hash.raw(), m.name);
    REQUIRE_EQ(b.size(), m.items.size(), m.name);
    uint64_t mask = ~0ULL >> (64 - 8 * m.size);
    for (size_t i = 0; i < m.items.size(); i++) {
      REQUIRE_EQ(sv(b[i]), m.items[i].first, m.name);
      REQUIRE_EQ(b.values[i] & mask, m.items[i].second & mask, m.name << "::" << m.items[i].first);
    }
  }
}
static void describe(std::ostream &os, const Set &x) {
  os << x.classes.size() << " classes, " << x.enums.size() << " enumerations:";
  for (auto c : x.classes) os << ' ' << c->name;
  for (auto e : x.enums) os << ' ' << e->m->name;
}

PBT_TEST(round_trip, 10000, 400000) {
  registerCorpus();
  size_t files = 1 + s.upto(2);
  std::vector<Set> sets;
  std::vector<size_t> begins, ends;
  std::stringstream str;
  BinWritterRef wr(str);
  for (size_t f = 0; f < files; f++) {
    string lead = s.bulk(s.size(40));
    wr.WriteBuffer(lead.data(), lead.size());
    sets.push_back(genSet(s));
    begins.push_back((size_t)str.tellp());
    ReflectorIO io;
    fill(io, sets.back());
    BinWritterRef at(str);
    if (s.chance(1, 3)) at.SetRelativeOrigin(s.upto(begins.back()), false);
    REQUIRE_EQ(io.Save(at), 0, "save");
    ends.push_back((size_t)str.tellp());
    s.label("moved", begins.back() != 0);
    // reading does not change what was added
    same(sets.back(), io);
  }
  string all = str.str();
  s.nontrivial(sets[0].classes.size() + sets[0].enums.size() > 1);
  s.note([&](std::ostream &os) { for (auto &x : sets) { describe(os, x); os << "; "; } os << all.size() << " bytes"; });
  REQUIRE_EQ(all.size(), ends.back(), "writing ends behind the file");
  ReflectorIO reused;
  bool reuse = s.chance(1, 4);
  for (size_t k = 0; k < files; k++) {
    size_t f = s.upto(files - 1);
    std::unique_ptr<ReflectorIO> fresh(new ReflectorIO);
    ReflectorIO &io = reuse ? reused : *fresh;
    BinReaderRef rd(str);
    rd.Seek(begins[f]);
    REQUIRE_EQ(io.Load(rd), 0, "load");
    REQUIRE_EQ((size_t)rd.Tell(), ends[f], "position behind the file");
    same(sets[f], io);
    // objects can be read through the loaded description
    if (!sets[f].classes.empty()) {
      size_t c = s.upto(sets[f].classes.size() - 1);
      const ClassModel &cm = *sets[f].classes[c];
      if (std::find(podClasses().begin(), podClasses().end(), &cm) != podClasses().end()) {
        Obj o(&cm);
        FillOpts fo;
        fillClass(s, cm, o.obj(), fo);
        ReflectedInstance i1 = o.inst(), i2(io.Classes()[c], o.obj());
        ReflectorPureWrap w1(i1), w2(i2);
        size_t m = s.upto(cm.n() - 1);
        REQUIRE_EQ(w2.GetReflectedValue(m), w1.GetReflectedValue(m), cm.name << "." << cm.mname(m));
        JenHash h(es::string_view(cm.mname(m)));
        REQUIRE_EQ(w2.GetReflectedValue(h), w1.GetReflectedValue(h), cm.name << "." << cm.mname(m));
        s.label("read through");
      }
    }
    // the loaded descriptions save again to the same bytes
    if (s.chance(1, 3)) {
      std::stringstream again;
      REQUIRE_EQ(io.Save(BinWritterRef(again)), 0, "save of loaded");
      ReflectorIO third;
      REQUIRE_EQ(third.Load(BinReaderRef(again)), 0, "load of resaved");
      same(sets[f], third);
      s.label("saved again");
    }
  }
}

PBT_TEST(foreign_files, 5000, 200000) {
  Set x = genSet(s);
  ReflectorIO io;
  fill(io, x);
  std::stringstream str;
  io.Save(BinWritterRef(str));
  string all = str.str();
  bool id = s.coin();
  uint32 v;
  memcpy(&v, &all[id ? 0 : 4], 4);
  uint32 bad = id ? v ^ (uint32)(1 + s.upto(0xfffffffe)) : v + 1 + (uint32)s.upto(0xffffffff - v - 1);
  memcpy(&all[id ? 0 : 4], &bad, 4);
  std::stringstream in(all);
  ReflectorIO got;
  int r = got.Load(BinReaderRef(in));
  s.nontrivial();
  s.note([&](std::ostream &os) { os << (id ? "identifier " : "version ") << std::hex << bad; });
  REQUIRE(r != 0, (id ? "identifier " : "version ") << bad << " is accepted");
  REQUIRE(got.Classes().empty() && got.Enums().empty(), "a refused file leaves descriptions");
}

// descriptions no declaration of the corpus has: any table, made at run time
struct Made {
  std::vector<reflType> types;
  std::deque<string> text;
  std::vector<const char *> names, aliases;
  const char *className = nullptr;
  std::vector<JenHash> aliasHashes;
  std::vector<_ReflDesc> descs;
  uint32_t hash = 0;
  bool hasNames = false, hasAliases = false, hasHashes = false, hasDescs = false;
  std::unique_ptr<reflectorStatic> stat;
};
static Made *making;
struct MadeTag {};
template <> struct ReflectorType<MadeTag> {
  static JenHash Hash() { return JenHash(making->hash); }
  static size_t NumTypes() { return making->types.size(); }
  static const reflType *Types() { return making->types.data(); }
  static const char *const *TypeNames() { return making->hasNames ? making->names.data() : nullptr; }
  static const char *ClassName() { return making->className; }
  static const char *const *TypeAliases() { return making->hasAliases ? making->aliases.data() : nullptr; }
  static const JenHash *TypeAliasHashes() { return making->hasHashes ? making->aliasHashes.data() : nullptr; }
  static const _ReflDesc *TypeDescriptors() { return making->hasDescs ? making->descs.data() : nullptr; }
};
struct MadeEnum : ReflectedEnum {
  using ReflectedEnum::parent::push_back;
};
static const char *text(Src &s, std::deque<string> &keep) {
  string t;
  switch (s.upto(4)) {
  case 0: break;
  case 1: t = s.ident(1); break;
  case 2: t = s.bulk(s.size(s.chance(1, 30) ? 70000 : 300)); break;
  default: t = s.ident(12);
  }
  for (auto &c : t) if (!c) c = ' ';
  keep.push_back(t);
  return keep.back().c_str();
}
PBT_TEST(made_tables, 4000, 200000) {
  size_t nc = s.size(5), ne = s.size(4);
  bool many = s.chance(1, 80); // more than a byte can count
  if (many) (s.coin() ? nc : ne) = s.range(250, 700);
  std::deque<Made> made;
  std::deque<string> keep;
  std::deque<std::vector<uint64>> values;
  std::vector<MadeEnum> enums;
  ReflectorIO io;
  bool odd = false;
  for (size_t c = 0; c < nc; c++) {
    made.emplace_back();
    Made &m = made.back();
    size_t n = many ? s.upto(2) : s.chance(1, 20) ? s.range(200, 255) : s.chance(1, 8) ? 0 : s.size(8);
    m.hash = (uint32_t)s.bits(32);
    m.hasNames = s.coin(), m.hasAliases = s.coin(), m.hasHashes = s.coin(), m.hasDescs = s.coin();
    if (s.coin()) m.className = text(s, m.text);
    odd |= n == 0 || n > 100;
    // tables of no rows are there all the same
    m.types.reserve(n + 1), m.names.reserve(n + 1), m.aliases.reserve(n + 1), m.aliasHashes.reserve(n + 1), m.descs.reserve(n + 1);
    for (size_t i = 0; i < n; i++) {
      m.types.push_back({(REFType)s.upto(14), (REFType)s.upto(14), (uint8)s.bits(8), (uint8)i, (uint16)s.bits(16), (uint16)s.bits(16), JenHash((uint32)s.bits(32)), JenHash((uint32)s.bits(32))});
      if (m.hasNames) m.names.push_back(text(s, m.text));
      if (m.hasAliases) m.aliases.push_back(s.coin() ? nullptr : text(s, m.text));
      if (m.hasHashes) m.aliasHashes.push_back(JenHash((uint32)s.bits(32)));
      if (m.hasDescs) {
        es::string_view p[2];
        for (auto &q : p) if (s.coin()) {
          const char *t = text(s, m.text);
          q = es::string_view(t, strlen(t));
        }
        m.descs.push_back({p[0], p[1]});
      }
    }
    making = &m;
    m.stat.reset(new reflectorStatic(_RTag<MadeTag>{}));
    io.AddClass(m.stat.get());
  }
  for (size_t e = 0; e < ne; e++) {
    enums.emplace_back();
    MadeEnum &m = enums.back();
    size_t n = many ? s.upto(2) : s.chance(1, 8) ? s.range(250, 600) : s.size(12);
    odd |= n > 255;
    values.emplace_back();
    for (size_t i = 0; i < n; i++) {
      m.push_back(text(s, keep));
      values.back().push_back(s.chance(1, 4) ? i : s.bits(64));
    }
    m.values = values.back().data();
    m.name = text(s, keep);
    m.hash = JenHash((uint32)s.bits(32));
    io.AddEnum(m);
  }
  std::stringstream str;
  string lead = s.bulk(s.size(20));
  str << lead;
  REQUIRE_EQ(io.Save(BinWritterRef(str)), 0, "save");
  // files of earlier versions are read too
  bool older = s.chance(1, 4);
  if (older) {
    string all = str.str();
    uint32 v = (uint32)s.upto(1000);
    memcpy(&all[lead.size() + 4], &v, 4);
    str.str(all);
  }
  ReflectorIO got;
  BinReaderRef rd(str);
  rd.Seek(lead.size());
  REQUIRE_EQ(got.Load(rd), 0, "load" << (older ? " of an older version" : ""));
  REQUIRE_EQ(got.Classes().size(), nc, "classes");
  REQUIRE_EQ(got.Enums().size(), ne, "enumerations");
  for (size_t c = 0; c < nc; c++) sameClass(*made[c].stat, *got.Classes()[c], "made class " + std::to_string(c) + " ");
  for (size_t e = 0; e < ne; e++) {
    const ReflectedEnum &b = got.Enums()[e], &a = enums[e];
    string w = "made enumeration " + std::to_string(e) + " of " + std::to_string(a.size());
    REQUIRE_EQ(sv(b.name), sv(a.name), w);
    REQUIRE_EQ(b.hash.raw(), a.hash.raw(), w);
    REQUIRE_EQ(b.size(), a.size(), w);
    for (size_t i = 0; i < a.size(); i++) {
      REQUIRE_EQ(sv(b[i]), sv(a[i]), w << " name " << i);
      REQUIRE_EQ(b.values[i], a.values[i], w << " value " << i);
    }
    for (size_t k = 0; k < 3; k++) {
      uint64 v = a.size() && s.chance(3, 4) ? a.values[s.upto(a.size() - 1)] : s.bits(64);
      string want;
      for (size_t j = 0; j < a.size(); j++) if (a.values[j] == v) { want = sv(a[j]); break; }
      REQUIRE_EQ(sv(b.find(v)), want, w << " name of " << v);
    }
  }
  s.nontrivial(nc + ne > 1);
  s.label("odd size", odd);
  s.label("older", older);
  s.label("many", many);
  s.note([&](std::ostream &os) { os << nc << " made classes, " << ne << " enumerations, " << str.str().size() << " bytes"; });
}
