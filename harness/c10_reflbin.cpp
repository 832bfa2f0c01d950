// C10: binary save and load of reflected objects.
#include "refl_types.hpp"
#include "datas/base_128.hpp"
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/reflector_io.hpp"
#include <sstream>
using pbt::Src;
using std::string;

// bit fields are saved as members, not on their own (saving one reports that)
static const std::vector<const ClassModel *> &savable() {
  static std::vector<const ClassModel *> v = [] {
    std::vector<const ClassModel *> r;
    for (auto c : podClasses()) if (c->bits.empty()) r.push_back(c);
    return r;
  }();
  return v;
}
static const ClassModel *pickClass(Src &s) {
  if (s.chance(1, 6)) return &classModel<Str>();
  if (s.chance(1, 60)) return s.pick(longClasses());
  return s.pick(savable());
}
static void noise(Src &s, Obj &o) {
  if (!o.c->hasStrings) {
    string r = s.bulk(o.c->size);
    memcpy(o.obj(), r.data(), r.size());
  }
  FillOpts fo;
  fo.raw = true;
  fillClass(s, *o.c, o.obj(), fo);
}
static void save(const Obj &o, BinWritterRef wr) {
  ReflectedInstance i = o.inst();
  ReflectorPureWrap w(i);
  REQUIRE_EQ(ReflectorBinUtil::Save(w, wr), 0, o.c->name << " is not saved");
}
static int load(const Obj &o, BinReaderRef rd) {
  ReflectedInstance i = o.inst();
  ReflectorPureWrap w(i);
  return ReflectorBinUtil::Load(w, rd);
}

PBT_TEST(round_trip, 60000, 3000000) {
  bool swap = s.chance(1, 4);
  size_t n = 1 + s.upto(3);
  std::stringstream str;
  BinWritterRef wr(str);
  wr.SwapEndian(swap);
  string lead = s.bulk(s.size(20));
  wr.WriteBuffer(lead.data(), lead.size());
  std::vector<Obj> src;
  std::vector<size_t> ends;
  for (size_t i = 0; i < n; i++) {
    src.emplace_back(pickClass(s));
    noise(s, src.back());
    save(src.back(), wr);
    ends.push_back(wr.Tell());
    s.label(src.back().c->name);
  }
  string trail = s.bulk(s.size(8));
  wr.WriteBuffer(trail.data(), trail.size());
  s.nontrivial(src[0].c->n() > 1);
  s.note([&](std::ostream &os) { os << n << " objects:"; for (auto &o : src) os << ' ' << o.c->name; os << (swap ? " swapped" : "") << ", " << str.str().size() << " bytes"; });
  BinReaderRef rd(str);
  rd.SwapEndian(swap);
  rd.Seek(lead.size());
  size_t origin = 0;
  if (s.coin()) { origin = s.upto(lead.size()); rd.SetRelativeOrigin(origin, false); }
  for (size_t i = 0; i < n; i++) {
    const ClassModel &c = *src[i].c;
    Obj d(&c);
    noise(s, d);
    string before = d.image();
    REQUIRE_EQ(load(d, rd), 0, c.name << " is not loaded, object " << i);
    string why;
    REQUIRE(sameClass(c, src[i].obj(), d.obj(), &why), c.name << "." << why << " object " << i);
    REQUIRE_EQ((size_t)rd.Tell() + origin, ends[i], c.name << " position behind object " << i);
    if (c.hasStrings) { // only what surrounds the object
      string after = d.image();
      REQUIRE(before.substr(0, d.guard) == after.substr(0, d.guard) && before.substr(d.guard + c.size) == after.substr(d.guard + c.size), c.name << " wrote outside the object");
      continue;
    }
    string after = d.image(), mask(before.size(), 0);
    memberMask(c, mask, d.guard);
    for (size_t b = 0; b < before.size(); b++)
      REQUIRE(mask[b] || before[b] == after[b], c.name << " loading changed byte " << (int64_t)(b - d.guard) << " of no member");
  }
}

// two saves of equal objects are equal, saving leaves the object as it was
PBT_TEST(save_only_reads, 20000, 1000000) {
  Obj o(s.pick(savable()));
  noise(s, o);
  string before = o.image();
  std::stringstream a, b;
  save(o, BinWritterRef(a));
  REQUIRE(o.image() == before, o.c->name << " is changed by saving");
  // an equal object with other bytes between the members
  Obj p(o.c);
  noise(s, p);
  string mask(o.total(), 0);
  memberMask(*o.c, mask, o.guard);
  for (size_t i = 0; i < mask.size(); i++)
    if (mask[i]) p.mem[i] = o.mem[i];
  save(p, BinWritterRef(b));
  REQUIRE(a.str() == b.str(), o.c->name << " saves bytes that belong to no member");
  s.nontrivial(o.c->n() > 1);
  s.note([&](std::ostream &os) { os << o.c->name << " " << a.str().size() << " bytes"; });
}

// ------------------------------------------------------------- versions of a class
struct VerInfo { const ClassModel &(*model)(); void (*make)(void *); void (*kill)(void *); };
#define V(n) extern const ClassModel &verModel##n(); extern void verMake##n(void *); extern void verKill##n(void *);
V(1) V(2) V(3) V(4) V(5) V(6)
#undef V
static const VerInfo vers[] = {{verModel1, verMake1, verKill1}, {verModel2, verMake2, verKill2}, {verModel3, verMake3, verKill3}, {verModel4, verMake4, verKill4}, {verModel5, verMake5, verKill5}, {verModel6, verMake6, verKill6}};
struct VObj {
  const VerInfo &v;
  const ClassModel &c;
  std::unique_ptr<char[]> raw;
  VObj(const VerInfo &i) : v(i), c(i.model()), raw(new char[c.size + 128]) {
    memset(raw.get(), 0x5A, c.size + 128);
    v.make(obj());
  }
  ~VObj() { v.kill(obj()); }
  char *obj() const { return raw.get() + 64; }
  ReflectedInstance inst() const { return ReflectedInstance(c.stat, obj()); }
};
static const MemberModel *find(const ClassModel &c, const char *n) {
  for (auto &m : c.members) if (!strcmp(m.name, n)) return &m;
  return nullptr;
}
PBT_TEST(other_versions, 60000, 3000000) {
  size_t fi = s.upto(5), ti = s.upto(5);
  VObj from(vers[fi]), to(vers[ti]), was(vers[ti]);
  FillOpts fo;
  fo.raw = true;
  fillClass(s, from.c, from.obj(), fo);
  fillClass(s, to.c, to.obj(), fo);
  for (auto &m : to.c.members) { // remember the values
    std::stringstream tmp;
    if (m.d->kind == K_STRING) *(string *)(was.obj() + m.off) = *(string *)(to.obj() + m.off);
    else memcpy(was.obj() + m.off, to.obj() + m.off, m.d->size);
  }
  std::stringstream str;
  BinWritterRef wr(str);
  bool swap = s.chance(1, 4);
  wr.SwapEndian(swap);
  string lead = s.bulk(s.size(9));
  wr.WriteBuffer(lead.data(), lead.size());
  {
    ReflectedInstance i = from.inst();
    ReflectorPureWrap w(i);
    REQUIRE_EQ(ReflectorBinUtil::Save(w, wr), 0, "save");
  }
  size_t end = wr.Tell();
  uint32 mark = (uint32)s.bits(32), got = ~mark;
  wr.Write(mark);
  BinReaderRef rd(str);
  rd.SwapEndian(swap);
  rd.Seek(lead.size());
  int r;
  {
    ReflectedInstance i = to.inst();
    ReflectorPureWrap w(i);
    r = ReflectorBinUtil::Load(w, rd);
  }
  s.nontrivial();
  s.label(fi == ti ? "same version" : from.c.n() != to.c.n() ? "other member count" : "other version");
  s.note([&](std::ostream &os) { os << "version " << fi + 1 << " into " << ti + 1 << " returns " << r; });
  REQUIRE_EQ((size_t)rd.Tell(), end, "position behind version " << fi + 1 << " loaded as " << ti + 1);
  rd.Read(got);
  REQUIRE_EQ(got, mark, "what follows");
  bool counts = from.c.n() == to.c.n(), retyped = false;
  for (auto &m : to.c.members) {
    const MemberModel *f = find(from.c, m.name);
    string why, what = string("member ") + m.name + " of version " + std::to_string(fi + 1) + " loaded as " + std::to_string(ti + 1) + ": ";
    if (counts && f && f->d != m.d && (f->d->kind != m.d->kind || f->d->size != m.d->size)) { retyped = true; continue; } // value is not specified
    if (counts && f) REQUIRE(sameValue(*m.d, from.obj() + f->off, to.obj() + m.off, &why), what << why);
    else REQUIRE(sameValue(*m.d, was.obj() + m.off, to.obj() + m.off, &why), what << "is no saved member but changed, " << why);
  }
  if (!counts) REQUIRE(r != 0, "another member count is not reported");
  else if (!retyped) REQUIRE_EQ(r, 0, "version " << fi + 1 << " into " << ti + 1);
}

// ------------------------------------------------------------- foreign and damaged data
PBT_TEST(foreign_class, 20000, 1000000) {
  const ClassModel *a = s.pick(savable()), *b = s.pick(savable());
  if (a == b || (!a->hasNames && !b->hasNames)) return;
  Obj x(a), y(b);
  noise(s, x);
  noise(s, y);
  std::stringstream str;
  BinWritterRef wr(str);
  string lead = s.bulk(s.size(9));
  wr.WriteBuffer(lead.data(), lead.size());
  save(x, wr);
  BinReaderRef rd(str);
  rd.Seek(lead.size());
  string before = y.image();
  int r = load(y, rd);
  s.nontrivial();
  s.note([&](std::ostream &os) { os << a->name << " into " << b->name; });
  REQUIRE(r != 0, a->name << " loads into " << b->name);
  REQUIRE(before == y.image(), b->name << " is changed by data of " << a->name);
  REQUIRE_EQ((size_t)rd.Tell(), lead.size(), "position after refusal");
  // it can still be read by the right class
  Obj z(a);
  string why;
  REQUIRE_EQ(load(z, rd), 0, a->name);
  REQUIRE(sameClass(*a, x.obj(), z.obj(), &why), a->name << "." << why);
}
PBT_TEST(cut_short, 40000, 2000000) {
  Obj o(pickClass(s));
  noise(s, o);
  std::stringstream str;
  save(o, BinWritterRef(str));
  string all = str.str();
  size_t cut = s.coin() ? all.size() - 1 - s.upto(std::min<size_t>(all.size() - 1, 8)) : s.upto(all.size() - 1);
  std::stringstream part(all.substr(0, cut));
  Obj d(o.c);
  noise(s, d);
  string before = d.image();
  int r = load(d, BinReaderRef(part));
  s.nontrivial(cut > 4);
  s.note([&](std::ostream &os) { os << o.c->name << " " << cut << " of " << all.size() << " bytes"; });
  REQUIRE(r != 0, o.c->name << " cut to " << cut << " of " << all.size() << " bytes is accepted");
  string after = d.image();
  REQUIRE(before.substr(0, d.guard) == after.substr(0, d.guard) && before.substr(d.guard + o.c->size) == after.substr(d.guard + o.c->size), "wrote outside the object");
}
// one value, somewhere in the object, is shorter than its member; its sizes agree
// with that, so everything behind it can still be read
namespace {
struct Piece { uint32 hash; string data; };
string varint(uint64 v) { std::stringstream t; BinWritterRef w(t); w.Write(buint128(v)); return t.str(); }
std::vector<Piece> takeApart(const string &chunk) {
  std::stringstream t(chunk);
  BinReaderRef r(t);
  buint128 n, len;
  r.Read(n);
  std::vector<Piece> v((size_t)n.value);
  for (auto &p : v) {
    r.Read(p.hash);
    r.Read(len);
    r.ReadContainer(p.data, (size_t)len.value);
  }
  REQUIRE_EQ((size_t)r.Tell(), chunk.size(), "members behind the last one");
  return v;
}
string putTogether(const std::vector<Piece> &v) {
  string r = varint(v.size());
  for (auto &p : v) r += string((const char *)&p.hash, 4) + varint(p.data.size()) + p.data;
  return r;
}
string chunkOf(const string &sized, size_t at) {
  std::stringstream t(sized);
  BinReaderRef r(t);
  r.Seek(at);
  buint128 len;
  r.Read(len);
  string d;
  r.ReadContainer(d, (size_t)len.value);
  return d;
}
// shortens one value below `c`, whose chunk is `chunk`; true when done
bool shorten(Src &s, const ClassModel &c, string &chunk, string &where, size_t &member) {
  auto v = takeApart(chunk);
  size_t i = s.upto(v.size() - 1);
  if (s.chance(1, 4)) { // the class itself ends early
    chunk.resize(s.coin() ? chunk.size() - 1 - s.upto(std::min<size_t>(chunk.size() - 1, 6)) : s.upto(chunk.size() - 1));
    where += " cut";
    member = c.n(); // none is promised
    return true;
  }
  member = i;
  const Desc &d = *c.members[i].d;
  where += string(".") + c.mname(i);
  bool arr = d.kind == K_ARRAY && d.sub->kind == K_CLASS;
  const ClassModel *sc = d.kind == K_CLASS ? d.cls : arr ? d.sub->cls : nullptr;
  if (sc && sc->bits.empty() && s.chance(2, 3)) { // inside of a sub class
    size_t n = arr ? d.count : 1, e = s.upto(n - 1), at = 0, k;
    std::vector<string> el;
    for (size_t j = 0; j < n; j++) {
      el.push_back(chunkOf(v[i].data, at));
      at += varint(el.back().size()).size() + el.back().size();
    }
    where += "#" + std::to_string(e);
    if (!shorten(s, *sc, el[e], where, k)) return false;
    v[i].data.clear();
    for (auto &x : el) v[i].data += varint(x.size()) + x;
  } else {
    if (v[i].data.empty()) return false;
    v[i].data.resize(s.coin() ? v[i].data.size() - 1 : s.upto(v[i].data.size() - 1));
  }
  chunk = putTogether(v);
  return true;
}
}
PBT_TEST(short_value, 30000, 1500000) {
  const ClassModel *c = s.chance(1, 6) ? &classModel<Str>() : s.pick(savable());
  Obj o(c), d(c);
  noise(s, o);
  noise(s, d);
  std::stringstream str;
  save(o, BinWritterRef(str));
  string all = str.str(), chunk = chunkOf(all, 4), where = c->name, was = chunk;
  size_t member = 0;
  REQUIRE(putTogether(takeApart(chunk)) == chunk, "saved form of " << c->name);
  if (!shorten(s, *c, chunk, where, member)) return;
  string trail = s.bulk(s.size(8));
  std::stringstream part(all.substr(0, 4) + varint(chunk.size()) + chunk + trail);
  string before = d.image();
  BinReaderRef rd(part);
  int r = load(d, rd);
  s.nontrivial();
  s.label(where.find('#') != string::npos ? "in a sub class" : member == c->n() ? "whole class" : "member");
  s.note([&](std::ostream &os) { os << where << " shortened, " << was.size() << " to " << chunk.size() << " bytes"; });
  REQUIRE(r != 0, where << " is too short and accepted");
  REQUIRE_EQ((size_t)rd.Tell(), 4 + varint(chunk.size()).size() + chunk.size(), "position behind the object with short " << where);
  for (size_t m = 0; m < c->n(); m++) { // the other members are loaded
    if (m == member || member == c->n()) continue;
    auto &mm = c->members[m];
    string why;
    REQUIRE(sameValue(*mm.d, o.obj() + mm.off, d.obj() + mm.off, &why), c->name << "." << mm.name << " " << why << " while " << where << " is short");
  }
  string after = d.image();
  REQUIRE(before.substr(0, d.guard) == after.substr(0, d.guard) && before.substr(d.guard + c->size) == after.substr(d.guard + c->size), "wrote outside the object");
}
// whatever the data, only the object is written to and loading ends
PBT_TEST(damaged, 40000, 2000000) {
  Obj o(pickClass(s));
  noise(s, o);
  std::stringstream str;
  save(o, BinWritterRef(str));
  string all = str.str();
  size_t n = 1 + s.upto(4);
  for (size_t i = 0; i < n; i++) {
    size_t at = s.chance(1, 3) ? 4 + s.upto(std::min<size_t>(all.size() - 5, 12)) : s.upto(all.size() - 1);
    switch (s.upto(2)) {
    case 0: all[at] ^= (char)(1 + s.upto(254)); break;
    case 1: all.insert(at, s.bulk(1 + s.upto(8))); break;
    default: all.erase(at, 1 + s.upto(8)); break;
    }
    if (all.size() < 8) all.resize(8);
  }
  std::stringstream part(all);
  Obj d(o.c);
  noise(s, d);
  string before = d.image();
  int r = load(d, BinReaderRef(part));
  s.nontrivial();
  s.label(r ? "reported" : "loaded");
  s.note([&](std::ostream &os) { os << o.c->name << " " << n << " changes, returns " << r; });
  string after = d.image();
  REQUIRE(before.substr(0, d.guard) == after.substr(0, d.guard) && before.substr(d.guard + o.c->size) == after.substr(d.guard + o.c->size), "wrote outside the object");
}
