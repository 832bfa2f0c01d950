// C12: XML forms of reflected objects.
#include "refl_types.hpp"
#include "datas/reflector_xml.hpp"
#include <sstream>
using pbt::Src;
using std::string;

static const ClassModel *pickClass(Src &s) {
  if (s.chance(1, 5)) return &classModel<Str>();
  if (s.chance(1, 400)) return s.pick(longClasses());
  return s.pick(podClasses());
}
static bool isTemplate(const ClassModel *c) { return c == &classModel<TmplI>() || c == &classModel<TmplF>(); }
// text that survives XML files
static string fileText(Src &s, bool list) {
  string r;
  size_t n = s.size(30);
  for (size_t i = 0; i < n; i++) {
    char c = s.chance(1, 3) ? s.pick({'<', '>', '&', '"', '\'', '/', ';', ']', '%', ' '}) : (char)s.range(' ', '~');
    if (list && strchr(",{}[]()\"' ", c)) c = '<';
    r += c;
  }
  if (list && r.empty()) r = "<";
  return r;
}
static void fillStrings(Src &s, const Obj &o) {
  if (!o.c->hasStrings) return;
  auto x = (Str *)o.obj();
  x->s0 = fileText(s, false), x->s1 = fileText(s, false);
  for (auto &a : x->arr) a = fileText(s, true);
}
static void fill(Src &s, Obj &o, bool file) {
  FillOpts fo;
  fo.text = true;
  if (!o.c->hasStrings) {
    string r = s.bulk(o.c->size);
    memcpy(o.obj(), r.data(), r.size());
  }
  fillClass(s, *o.c, o.obj(), fo);
  if (file) fillStrings(s, o);
}
static string key(const ClassModel &c, size_t m) {
  if (c.hasNames) return c.mname(m);
  char b[32];
  snprintf(b, 32, "h:%X", (unsigned)JenHash(es::string_view(c.mname(m))).raw());
  return b;
}
static string classKey(const ClassModel &c) {
  if (c.hasNames) return c.stat->className;
  char b[32];
  snprintf(b, 32, "h:%X", (unsigned)c.stat->classHash.raw());
  return b;
}

enum Form { V1, V2, V2A, V2S }; // V2S: strings as attributes
static const char *const formNames[] = {"v1", "v2", "v2a", "v2a strings as attributes"};

static pugi::xml_node save(const Obj &o, pugi::xml_node at, Form f, bool asNode) {
  ReflectedInstance i = o.inst();
  ReflectorPureWrap w(i);
  switch (f) {
  case V1: return ReflectorXMLUtil::Save(w, at, asNode);
  case V2: return ReflectorXMLUtil::SaveV2(w, at, asNode);
  default: {
    ReflectorXMLUtil::flag_type fl;
    if (asNode) fl += ReflectorXMLUtil::Flags_ClassNode;
    if (f == V2S) fl += ReflectorXMLUtil::Flags_StringAsAttribute;
    return ReflectorXMLUtil::SaveV2a(w, at, fl);
  }
  }
}
static pugi::xml_node load(const Obj &o, pugi::xml_node at, Form f, bool lookup) {
  ReflectedInstance i = o.inst();
  ReflectorPureWrap w(i);
  return f == V1 ? ReflectorXMLUtil::Load(w, at, lookup) : ReflectorXMLUtil::LoadV2(w, at, lookup);
}
// everything around and between reflected members
static string outside(const Obj &o) {
  string im = o.image();
  if (o.c->hasStrings) { memset(&im[o.guard], 0, o.c->size); return im; }
  string mask(o.c->size, 0);
  memberMask(*o.c, mask, 0);
  for (size_t i = 0; i < mask.size(); i++)
    if (mask[i]) im[o.guard + i] = 0;
  return im;
}
static string print(pugi::xml_node n, unsigned fl = pugi::format_raw) {
  std::ostringstream o;
  n.print(o, " ", fl);
  return o.str();
}

PBT_TEST(round_trip, 25000, 1500000) {
  Form f = (Form)s.upto(3);
  bool asNode = s.coin();
  size_t n = asNode ? 1 + s.upto(2) : 1;
  bool file = s.coin();
  pugi::xml_document doc, doc2;
  pugi::xml_node root = doc;
  bool deep = file || !asNode || s.coin();
  if (deep) root = doc.append_child("root").append_child("data");
  bool tmpl = false;
  std::vector<Obj> src, dst;
  std::vector<string> before;
  std::vector<const ClassModel *> used;
  if (asNode && s.coin()) root.append_child("Unrelated").append_attribute("x").set_value("1");
  for (size_t i = 0; i < n; i++) {
    const ClassModel *c = pickClass(s);
    if (std::find(used.begin(), used.end(), c) != used.end()) continue;
    used.push_back(c);
    tmpl |= asNode && isTemplate(c);
    src.emplace_back(c), dst.emplace_back(c);
    fill(s, src.back(), file);
    fill(s, dst.back(), file);
    before.push_back(outside(dst.back()));
    string im = src.back().image();
    auto node = save(src.back(), root, f, asNode);
    REQUIRE(asNode ? node.parent() == root : node == root, "node returned by save");
    if (asNode) REQUIRE_EQ(string(node.name()), classKey(*c), "class node");
    REQUIRE(src.back().image() == im, "saving changed the object");
    s.label(c->name);
  }
  s.label(formNames[f]);
  if (asNode && s.coin()) root.append_child("Behind").append_child("d");
  if (file && !tmpl) {
    string t = print(doc, s.coin() ? pugi::format_raw : pugi::format_default);
    auto r = doc2.load_buffer(t.data(), t.size(), pugi::parse_default | pugi::parse_ws_pcdata_single);
    REQUIRE(r, "written XML is not valid: " << r.description() << " " << t);
    root = doc2.child("root").child("data");
    s.label("through text");
  }
  for (size_t i = 0; i < src.size(); i++) {
    auto node = load(dst[i], root, f, asNode);
    REQUIRE(asNode ? node.parent() == root && node.name() == classKey(*src[i].c) : node == root, "node returned by load");
    string why;
    REQUIRE(sameClass(*src[i].c, src[i].obj(), dst[i].obj(), &why), formNames[f] << " " << src[i].c->name << "." << why << " in " << print(node));
    REQUIRE(outside(dst[i]) == before[i], "bytes outside of members changed, " << src[i].c->name);
  }
  s.nontrivial(src[0].c->n() >= 2);
  s.note([&](std::ostream &o) { o << formNames[f] << " " << print(root).substr(0, 300); });
}

// ------------------------------------------------------------- options
struct OptIn { string text; int32 num; Vector2 vec; void ReflectorTag(); };
REFLECTOR_CREATE(OptIn, 1, VARNAMES, text, num, vec)
struct OptMid { OptIn in; string name; OptIn ins[2]; void ReflectorTag(); };
REFLECTOR_CREATE(OptMid, 1, VARNAMES, in, name, ins)
struct OptTop { string title; OptMid mids[3]; uint8 n; OptMid mid; string end; void ReflectorTag(); };
REFLECTOR_CREATE(OptTop, 1, VARNAMES, title, mids, n, mid, end)

template <class F> static void eachIn(OptTop &t, F f) {
  auto mid = [&](OptMid &m) { f(m.in); for (auto &i : m.ins) f(i); };
  for (auto &m : t.mids) mid(m);
  mid(t.mid);
}
template <class F> static void eachText(OptTop &t, F f) {
  f(t.title), f(t.end);
  for (auto &m : t.mids) f(m.name);
  f(t.mid.name);
  eachIn(t, [&](OptIn &i) { f(i.text); });
}
static void stringForm(pugi::xml_node n, bool attr, size_t &seen) {
  for (auto name : {"title", "name", "text", "end"}) {
    bool a = n.attribute(name), c = n.child(name);
    REQUIRE(!(a && c), "string " << name << " saved twice");
    if (!a && !c) continue;
    seen++;
    REQUIRE(a == attr, "string " << name << " is saved as " << (a ? "attribute" : "node") << " in " << print(n));
  }
  for (auto c : n.children()) {
    if (c.type() != pugi::node_element) continue;
    REQUIRE(string(c.name()) != "OptIn" && string(c.name()) != "OptMid", "sub class is saved under its class name");
    stringForm(c, attr, seen);
  }
}
// the options hold at every depth
PBT_TEST(options, 4000, 200000) {
  static RegisterReflectedTypes<OptIn, OptMid, OptTop> reg;
  (void)reg;
  OptTop a{}, b{};
  auto fillTop = [&](OptTop &t) {
    eachText(t, [&](string &x) { x = fileText(s, false); });
    eachIn(t, [&](OptIn &i) { i.num = (int32)s.bits(32), i.vec = Vector2((float)s.range(0, 500), 0.5f); });
    t.n = (uint8)s.bits(8);
  };
  fillTop(a), fillTop(b);
  bool node = s.coin(), attr = s.coin();
  ReflectorXMLUtil::flag_type fl;
  if (node) fl += ReflectorXMLUtil::Flags_ClassNode;
  if (attr) fl += ReflectorXMLUtil::Flags_StringAsAttribute;
  pugi::xml_document doc, back;
  auto root = doc.append_child("root");
  ReflectorWrap<OptTop> wa(a), wb(b);
  auto at = !attr && s.coin() ? ReflectorXMLUtil::SaveV2(wa, root, node) : ReflectorXMLUtil::SaveV2a(wa, root, fl);
  REQUIRE(node ? at.parent() == root && string(at.name()) == "OptTop" : at == root, "node returned");
  size_t seen = 0;
  stringForm(at, attr, seen);
  REQUIRE_EQ(seen, size_t(2 + 4 + 12), "strings saved");
  string t = print(doc);
  auto r = back.load_buffer(t.data(), t.size(), pugi::parse_default | pugi::parse_ws_pcdata_single);
  REQUIRE(r, "written XML is not valid: " << r.description() << " " << t);
  ReflectorXMLUtil::LoadV2(wb, back.child("root"), node);
  std::vector<string> x, y;
  eachText(a, [&](string &v) { x.push_back(v); });
  eachText(b, [&](string &v) { y.push_back(v); });
  for (size_t i = 0; i < x.size(); i++) REQUIRE_EQ(y[i], x[i], "string " << i << " in " << t);
  std::vector<OptIn> p, q;
  eachIn(a, [&](OptIn &i) { p.push_back(i); });
  eachIn(b, [&](OptIn &i) { q.push_back(i); });
  for (size_t i = 0; i < p.size(); i++) REQUIRE(p[i].num == q[i].num && p[i].vec == q[i].vec, "members of sub class " << i << " in " << t);
  REQUIRE_EQ((int)b.n, (int)a.n, t);
  s.nontrivial();
  s.label(attr ? "strings as attributes" : "strings as nodes");
  s.note([&](std::ostream &o) { o << t.substr(0, 300); });
}

// ------------------------------------------------------------- parts of documents
static string baseName(const string &n) { return n.substr(0, n.find('-')); }
static size_t dropPieces(pugi::xml_node at, const string &name) {
  size_t r = 0;
  for (auto a = at.first_attribute(); a;) { auto x = a.next_attribute(); if (baseName(a.name()) == name) at.remove_attribute(a), r++; a = x; }
  for (auto a = at.first_child(); a;) { auto x = a.next_sibling(); if (baseName(a.name()) == name) at.remove_child(a), r++; a = x; }
  return r;
}
static void copyValue(const Desc &d, char *to, const char *from) {
  if (d.kind == K_STRING) *(string *)to = *(const string *)from;
  else if (d.kind == K_ARRAY) for (size_t i = 0; i < d.count; i++) copyValue(*d.sub, to + i * d.sub->size, from + i * d.sub->size);
  else if (d.kind == K_CLASS && d.cls->bits.empty()) for (auto &m : d.cls->members) copyValue(*m.d, to + m.off, from + m.off);
  else memcpy(to, from, d.size);
}
static void junk(Src &s, const ClassModel &c, pugi::xml_node at, Form f, size_t &added) {
  static const char *const names[] = {"unknownMember", "x", "h:12345", "h:", "-", "-3", "unk-7", "h:zz-1", "i:", "i:0", "a", "_"};
  while (s.chance(1, 4)) {
    added++;
    const char *n = s.pick(names);
    switch (s.upto(4)) {
    case 0: if (!at.parent().empty() && at.type() == pugi::node_element) at.append_attribute(n).set_value("5"); break;
    case 1: at.append_child(n); break;
    case 2: at.append_child(n).append_attribute(s.pick(names)).set_value("1"); break;
    case 3: { auto x = at.prepend_child(n); x.append_attribute("y").set_value("true"); x.append_child(pugi::node_pcdata).set_value("7"); x.append_child("z").append_attribute("x").set_value("2"); break; }
    default: at.append_child(s.coin() ? pugi::node_comment : pugi::node_cdata).set_value("note"); break;
    }
  }
  // elements behind the end of arrays
  for (auto &m : c.members)
    if (m.d->kind == K_ARRAY && f != V1 && s.chance(1, 8)) {
      added++;
      string n = key(c, &m - &c.members[0]) + "-" + std::to_string(m.d->count + (s.coin() ? 0 : s.upto(100000)));
      auto k = m.d->sub->kind;
      if (k == K_CLASS || k == K_VECTOR || k == K_FLAGS || k == K_STRING) {
        auto x = at.append_child(n.c_str());
        x.append_attribute(s.coin() ? "x" : "data0").set_value("1");
        if (s.coin()) x.append_child("data1");
      } else if (at.type() == pugi::node_element) at.append_attribute(n.c_str()).set_value("1");
    }
}
// removes some of what was saved, copies the rest from `src` to `want`
static void prune(Src &s, const ClassModel &c, const char *src, char *want, pugi::xml_node at, Form f, size_t &dropped, size_t &added) {
  if (!c.bits.empty()) {
    uint64_t v = getU(want, c.size), x = getU(src, c.size);
    for (size_t i = 0; i < c.n(); i++) {
      if (s.coin()) { REQUIRE(dropPieces(at, key(c, i)), "nothing saved for " << c.mname(i)); dropped++; continue; }
      uint64_t mask = (~0ULL >> (64 - c.bits[i].width)) << c.bits[i].pos;
      v = (v & ~mask) | (x & mask);
    }
    putU(want, v, c.size);
    junk(s, c, at, f, added);
    return;
  }
  for (size_t i = 0; i < c.n(); i++) {
    const Desc &d = *c.members[i].d;
    size_t off = c.members[i].off;
    string k = key(c, i);
    if (s.chance(1, 3)) { REQUIRE(dropPieces(at, k), "nothing saved for " << k); dropped++; continue; }
    if (d.kind == K_CLASS) { prune(s, *d.cls, src + off, want + off, at.child(k.c_str()), f, dropped, added); continue; }
    bool separate = d.kind == K_ARRAY && (f == V1 ? d.sub->kind == K_CLASS : d.sub->kind != K_STRING);
    if (separate) {
      pugi::xml_document kept;
      if (f == V1) kept.append_copy(at.child(k.c_str()).last_child());
      for (size_t e = 0; e < d.count; e++) {
        const Desc &sd = *d.sub;
        string n = f == V1 ? "i:" + std::to_string(e) : k + "-" + std::to_string(e);
        auto holder = f == V1 ? at.child(k.c_str()) : at;
        if (s.chance(1, 4)) {
          REQUIRE(holder.remove_child(n.c_str()) || holder.remove_attribute(n.c_str()), "nothing saved for " << k << " element " << e << " in " << print(at));
          dropped++;
        } else if (sd.kind == K_CLASS) prune(s, *sd.cls, src + off + e * sd.size, want + off + e * sd.size, holder.child(n.c_str()), f, dropped, added);
        else copyValue(sd, want + off + e * sd.size, src + off + e * sd.size);
      }
      if (f == V1 && s.chance(1, 4)) {
        added++;
        auto x = at.child(k.c_str()).append_child(s.pick({"i", "", "i:99999", "i:-1", "x", "0", "x:0", "I:0", "i-0", "i;1"}));
        if (s.coin()) x.append_child("unknownMember").text().set("3");
        else // the values of an element, but it is none
          for (auto y : kept.first_child().children()) x.append_copy(y);
      }
      if (f == V1 && s.chance(1, 6)) at.child(k.c_str()).append_child(pugi::node_pcdata).set_value("text"), added++;
      continue;
    }
    if (d.kind == K_VECTOR && f != V1 && s.coin()) {
      auto node = at.child(k.c_str());
      static const char *const ax[] = {"x", "y", "z", "w"};
      for (size_t e = 0; e < d.count; e++)
        if (s.coin()) {
          REQUIRE(node.remove_attribute(ax[e]), "no component " << ax[e] << " of " << k);
          dropped++;
        } else memcpy(want + off + e * d.sub->size, src + off + e * d.sub->size, d.sub->size);
      // an empty node is read as text, one without anything is not a value
      if (!node.first_attribute()) at.remove_child(node);
      else if (s.chance(1, 4)) node.append_attribute(s.pick({"q", "v", "aa", "_"})).set_value("3"), added++;
      continue;
    }
    copyValue(d, want + off, src + off);
  }
  junk(s, c, at, f, added);
}

PBT_TEST(partial_documents, 25000, 1500000) {
  Form f = (Form)s.upto(3);
  const ClassModel *c = pickClass(s);
  bool asNode = s.coin();
  Obj src(c), dst(c), want(c);
  fill(s, src, false), fill(s, dst, false);
  copyValue(Desc{K_CLASS, c->size, 0, nullptr, nullptr, c}, want.obj(), dst.obj());
  if (!c->bits.empty()) memcpy(want.obj(), dst.obj(), c->size);
  pugi::xml_document doc;
  auto root = doc.append_child("root");
  auto node = save(src, root, f, asNode);
  size_t dropped = 0, added = 0;
  prune(s, *c, src.obj(), want.obj(), node, f, dropped, added);
  string out = outside(dst);
  load(dst, root, f, asNode);
  string why;
  REQUIRE(sameClass(*c, want.obj(), dst.obj(), &why), formNames[f] << " " << c->name << "." << why << " (expected vs loaded) from " << print(node));
  REQUIRE(outside(dst) == out, "bytes outside of members changed, " << c->name << " " << print(node));
  s.nontrivial(dropped && added);
  s.label(formNames[f]);
  s.note([&](std::ostream &o) { o << formNames[f] << " " << c->name << " -" << dropped << " +" << added << " " << print(node).substr(0, 300); });
}

// ----------------------------------------------------------------- any document
static void names(const ClassModel &c, std::vector<string> &v, int depth) {
  v.push_back(classKey(c));
  for (size_t i = 0; i < c.n(); i++) v.push_back(key(c, i)), v.push_back(c.mname(i));
  if (depth)
    for (auto &m : c.members) {
      auto d = m.d->kind == K_ARRAY ? m.d->sub : m.d;
      if (d->kind == K_CLASS) names(*d->cls, v, depth - 1);
      if (d->en) for (auto &e : d->en->items) v.push_back(e.first);
    }
}
static string anyName(Src &s, const std::vector<string> &v) {
  static const char *const other[] = {"x", "y", "z", "w", "i:0", "i:1", "i:2", "i:99", "i:", "", "-", "h:", "h:0", "h:FFFFFFFF", "i", "n-0"};
  string n = s.chance(1, 4) ? s.pick(other) : s.pick(v);
  switch (s.upto(5)) {
  case 0: n += "-" + std::to_string(s.upto(4)); break;
  case 1: n += s.pick({"-", "--1", "-99999999999999999999", "-18446744073709551615", "-4294967296", "-x", "-255", "-65536", ""}); break;
  case 2: { char b[32]; snprintf(b, 32, "h:%X", (unsigned)JenHash(es::string_view(n)).raw()); n = b; break; }
  default: break;
  }
  return n;
}
static string anyValue(Src &s) {
  switch (s.upto(6)) {
  case 0: return std::to_string((int64_t)s.bits(64));
  case 1: return s.pick({"", " ", "true", "false", "{", "}", "{}", "[]", "{1, 2}", "[1, 2, 3]", "{{1,2},{3,4}}", "nan", "inf", "0x", "-", "Xa | Xb", "NULL", "|", "\"", "{\"", "(", "{,", "{1,,2}", "1e999", "-0"});
  case 2: return std::to_string(s.upto(300));
  case 3: return fileText(s, false);
  case 4: { string r; for (auto c : s.bulk(s.size(60))) if (c) r += c; return r; }
  case 5: { string r = "{"; for (size_t i = 0, n = s.size(12); i < n; i++) r += std::to_string(s.upto(999)) + (s.chance(1, 9) ? "" : ", "); return r + (s.coin() ? "}" : ""); }
  default: return std::to_string((double)s.bits(32) / 77);
  }
}
static void anyNode(Src &s, pugi::xml_node at, const std::vector<string> &v, int depth, size_t &n) {
  for (size_t i = 0, k = s.size(6); i < k; i++) {
    if (at.type() == pugi::node_element && s.coin()) {
      at.append_attribute(anyName(s, v).c_str()).set_value(anyValue(s).c_str());
      n++;
      continue;
    }
    if (s.chance(1, 6)) { at.append_child(s.coin() ? pugi::node_pcdata : pugi::node_comment).set_value(anyValue(s).c_str()); continue; }
    auto c = at.append_child(anyName(s, v).c_str());
    n++;
    if (s.chance(1, 3)) c.text().set(anyValue(s).c_str());
    if (depth) anyNode(s, c, v, depth - 1, n);
  }
}
PBT_TEST(any_document, 60000, 3000000) {
  const ClassModel *c = pickClass(s);
  Obj o(c);
  fill(s, o, false);
  string out = outside(o);
  std::vector<string> v;
  names(*c, v, 3);
  pugi::xml_document doc;
  auto root = doc.append_child(s.coin() ? "root" : classKey(*c).c_str());
  size_t n = 0;
  anyNode(s, root, v, 4, n);
  Form f = s.coin() ? V1 : V2;
  bool lookup = s.coin();
  pugi::xml_node at = lookup && s.coin() ? (pugi::xml_node)doc : root;
  string im = o.c->hasStrings ? "" : o.image();
  bool there = false;
  for (auto x : at.children()) there |= x.name() == classKey(*c) || (string(x.name()).substr(0, 2) == "h:" && strtoul(x.name() + 2, nullptr, 16) == c->stat->classHash.raw());
  auto r = load(o, at, f, lookup);
  REQUIRE(outside(o) == out, "bytes outside of members changed, " << c->name << " " << print(doc));
  if (lookup && there) {
    REQUIRE(r.parent() == at, "class node not found in " << print(doc));
    string rn = r.name();
    REQUIRE(rn == classKey(*c) || rn.substr(0, 2) == "h:", "loaded from node " << rn);
  }
  if (lookup && !there) {
    REQUIRE(r.empty(), "class node found in " << print(doc));
    if (!o.c->hasStrings) REQUIRE(o.image() == im, "object changed without a class node");
  }
  s.nontrivial(n >= 3);
  s.label(lookup ? (there ? "class node found" : "no class node") : "node given");
  s.note([&](std::ostream &x) { x << c->name << " " << print(doc).substr(0, 300); });
}
// XML forms hold arrays of strings as the list text of C08's finding
PBT_PROBE(string_array_text) {
  for (Form f : {V1, V2}) {
    Obj a(&classModel<Str>()), b(&classModel<Str>());
    for (auto &x : ((Str *)a.obj())->arr) x = "e";
    ((Str *)a.obj())->arr[0] = "one, two";
    pugi::xml_document doc;
    save(a, doc, f, true);
    load(b, doc, f, true);
    REQUIRE_EQ(((Str *)b.obj())->arr[0], string("one, two"), "string array element with a comma");
  }
}
