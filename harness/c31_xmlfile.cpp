// C31: XML files.
#include "pbt.hpp"
#include "datas/pugiex.hpp"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
using pbt::Src;
using std::string;

static string dirName() {
  const char *w = getenv("PBT_WORK");
  string d = string(w ? w : ".") + "/c31_" + std::to_string(getpid());
  mkdir(d.c_str(), 0755);
  return d;
}
static string text(Src &s, bool wide) {
  string r;
  for (size_t i = 0, n = s.size(10); i < n; i++)
    switch (s.upto(wide ? 4 : 2)) {
    case 0: r += (char)s.range(97, 122); break;
    case 1: r += s.pick({'<', '>', '&', '"', '\'', ' ', ';', '!'}); break;
    case 2: r += (char)s.range(33, 126); break;
    case 3: r += s.pick({"\xc3\xa9", "\xc4\x8d", "\xc2\xa0"}); break;
    default: r += s.pick({"\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xe3\x81\x82"}); break;
    }
  // outer blanks are not kept as text
  while (!r.empty() && r[0] == ' ') r.erase(0, 1);
  while (!r.empty() && r.back() == ' ') r.pop_back();
  return r;
}
static void grow(Src &s, pugi::xml_node n, int depth, int &budget, bool wide) {
  for (size_t i = 0, c = s.upto(2); i < c; i++) { string an = "a" + std::to_string(i) + s.ident(3); n.append_attribute(an.c_str()).set_value(text(s, wide).c_str()); }
  bool lastText = true; // neighbouring texts merge
  for (size_t i = 0, c = s.upto(3); i < c && budget > 0; i++) {
    budget--;
    if (!lastText && i == 0) continue;
    switch (s.upto(5)) {
    case 0: { string t = text(s, wide); if (!t.empty() && c == 1) n.append_child(pugi::node_pcdata).set_value(t.c_str()); break; }
    case 1: { string t = s.ident(8); n.append_child(pugi::node_cdata).set_value(t.c_str()); break; }
    default: { string t = s.ident(5); if (s.chance(1, 12)) t += string(s.pick({120, 250, 255, 256, 300, 5000, 33000, 65536}), 'n') + s.ident(1); auto ch = n.append_child(t.c_str()); if (depth < 4) grow(s, ch, depth + 1, budget, wide); }
    }
  }
}
static bool sameTree(pugi::xml_node a, pugi::xml_node b, string &why) {
  if (a.type() != b.type()) { why = "kind of node at " + a.path(); return false; }
  if (string(a.name()) != b.name() || string(a.value()) != b.value()) { why = "node '" + string(a.name()) + "' = '" + a.value() + "', not '" + b.name() + "' = '" + b.value() + "'"; return false; }
  auto x = a.first_attribute(), y = b.first_attribute();
  for (; x && y; x = x.next_attribute(), y = y.next_attribute())
    if (string(x.name()) != y.name() || string(x.value()) != y.value()) { why = "attribute " + string(x.name()) + " = '" + x.value() + "', not '" + y.value() + "'"; return false; }
  if (x || y) { why = "number of attributes of " + string(a.name()); return false; }
  auto p = a.first_child(), q = b.first_child();
  for (; p && q; p = p.next_sibling(), q = q.next_sibling()) if (!sameTree(p, q, why)) return false;
  if (p || q) { why = "number of children of '" + string(a.name()) + "'"; return false; }
  return true;
}
static const XMLEncoding ENC[] = {XMLEncoding::UTF8, XMLEncoding::UTF16_LE, XMLEncoding::UTF16_BE, XMLEncoding::UFT16, XMLEncoding::UTF32_LE, XMLEncoding::UTF32_be, XMLEncoding::UTF32, XMLEncoding::Wchar, XMLEncoding::Latin1};

PBT_TEST(round_trip, 12000, 300000) {
  pugi::xml_document doc;
  size_t e = s.chance(1, 2) ? 0 : s.upto(8);
  bool latin = ENC[e] == XMLEncoding::Latin1, wide = !latin;
  int budget = 30;
  auto root = doc.append_child(s.ident(6).c_str());
  grow(s, root, 0, budget, wide);
  if (root.first_child()) s.nontrivial();
  string dir = dirName(), file = dir + "/" + s.ident(5) + ".xml";
  XMLFormatFlags ff;
  bool bom = s.coin(), raw = s.coin(), nodecl = s.coin();
  if (s.coin()) ff += XMLFormatFlag::Indent;
  if (raw) ff += XMLFormatFlag::Raw;
  if (bom) ff += XMLFormatFlag::WriteBOM;
  if (nodecl) ff += XMLFormatFlag::NoDeclaration;
  if (s.chance(1, 4)) ff += XMLFormatFlag::IndentAttributes;
  if (s.chance(1, 4)) ff += XMLFormatFlag::NoEmptyElementTaggs;
  const char *indent = s.pick({"\t", "  ", ""});
  bool defaults = e == 0 && s.chance(1, 3);
  if (s.chance(1, 4)) std::ofstream(file) << string(5000, 'x'); // an older, longer file
  if (defaults) XMLToFile(file, doc); else XMLToFile(file, doc, ff, indent, ENC[e]);
  std::ifstream is(file, std::ios::binary);
  std::stringstream bs;
  bs << is.rdbuf();
  string bytes = bs.str();
  size_t unit = e == 0 || latin ? 1 : e < 4 ? 2 : 4;
  REQUIRE(bytes.size() % unit == 0, "size of the file in its encoding");
  if (defaults || (unit == 1 && !(bom && !latin))) REQUIRE(bytes.compare(0, 5, "<?xml") == 0 || (!defaults && nodecl && bytes[0] == '<'), "start of the file: " << bytes.substr(0, 20));
  if (!defaults && !latin) {
    static const char *const boms[] = {"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\xff\xfe", "\xff\xfe\0\0", "\0\0\xfe\xff", "\xff\xfe\0\0", "\xff\xfe\0\0"};
    static const size_t len[] = {3, 2, 2, 2, 4, 4, 4, 4};
    REQUIRE_EQ(bytes.compare(0, len[e], string(boms[e], len[e])) == 0, bom, "byte order mark");
  }
  bool cr = s.chance(1, 3);
  XMLParseFlags pf = XMLDefaultParseFlags;
  pugi::xml_document back = !cr && (e == 0 || (bom && !latin && !defaults)) ? XMLFromFile(file) : XMLFromFile(file, pf, ENC[e]);
  string why;
  unlink(file.c_str());
  rmdir(dir.c_str());
  REQUIRE(sameTree(doc, back, why), "read back: " << why);
  auto all = XMLCollectChildren(back.document_element());
  size_t n = 0;
  for (auto c : back.document_element()) { REQUIRE(n < all.size() && all[n] == c, "collected child " << n); n++; }
  REQUIRE_EQ(all.size(), n, "collected children");
  string nm = s.coin() && n ? string(all[s.upto(n - 1)].name()) : s.ident(3);
  if (!nm.empty() && s.chance(1, 3)) s.coin() ? nm.pop_back() : nm.push_back('a'); // nearly a name
  if (!nm.empty()) {
    string around = "ab" + nm + "cd"; // the view ends before its text does
    auto some = s.coin() ? XMLCollectChildren(back.document_element(), nm) : XMLCollectChildren(back.document_element(), es::string_view(around.data() + 2, nm.size()));
    size_t k = 0;
    for (auto c : all) if (nm == c.name()) { REQUIRE(k < some.size() && some[k] == c, "collected child called " << nm); k++; }
    REQUIRE_EQ(some.size(), k, "collected children called " << nm);
  }
}

// Each parse flag switches on what it is called after, and nothing else.
PBT_TEST(parse_flags, 12000, 200000) {
  unsigned m = (unsigned)s.bits(14) & ~(1u << 10 | 1u << 3 | 1u << 12 | 1u << 11 | 1u << 13);
  if (s.chance(1, 4)) m = 0x74;
  XMLParseFlags pf;
  static const XMLParseFlag F[] = {XMLParseFlag::PI, XMLParseFlag::Comments, XMLParseFlag::CDATA, XMLParseFlag::WhiteSpacePCDATA, XMLParseFlag::Escapes, XMLParseFlag::EOL, XMLParseFlag::WConvAttribute, XMLParseFlag::WNormAttribute,
                                   XMLParseFlag::Declaration, XMLParseFlag::DocType, XMLParseFlag::WhiteSpavePCDATASingle, XMLParseFlag::TrimPCDATA, XMLParseFlag::Fragment, XMLParseFlag::EmbedPCDATA};
  for (int i = 0; i < 14; i++) if (m >> i & 1) pf += F[i];
  s.nontrivial();
  string dir = dirName(), file = dir + "/f.xml";
  bool trim = s.coin(), frag = s.coin(), embed = s.chance(1, 3), ws = s.coin(), single = s.coin();
  if (trim) pf += XMLParseFlag::TrimPCDATA, m |= 1 << 11;
  if (ws) pf += XMLParseFlag::WhiteSpacePCDATA, m |= 1 << 3;
  if (single) pf += XMLParseFlag::WhiteSpavePCDATASingle, m |= 1 << 10;
  if (frag) pf += XMLParseFlag::Fragment, m |= 1 << 12;
  if (embed) pf += XMLParseFlag::EmbedPCDATA, m |= 1 << 13;
  std::ofstream(file) << "<?xml version=\"1.0\"?><!DOCTYPE r><?pi x?><!--c--><r a=\" p  q&#9;&amp;\"><d><![CDATA[cd]]></d><e>&lt;\r\nz</e><t> in </t><w> </w> <x/></r>" << (frag ? "out" : "");
  auto d = XMLFromFile(file, pf);
  unlink(file.c_str()), rmdir(dir.c_str());
  auto on = [&](int b) { return (m >> b & 1) != 0; };
  auto has = [&](pugi::xml_node n, pugi::xml_node_type t) { for (auto c : n) if (c.type() == t) return true; return false; };
  auto r = d.child("r");
  REQUIRE(r, "element lost");
  REQUIRE_EQ(has(d, pugi::node_declaration), on(8), "declaration kept");
  REQUIRE_EQ(has(d, pugi::node_doctype), on(9), "document type kept");
  REQUIRE_EQ(has(d, pugi::node_pi), on(0), "processing instruction kept");
  REQUIRE_EQ(has(d, pugi::node_comment), on(1), "comment kept");
  REQUIRE_EQ(has(r.child("d"), pugi::node_cdata), on(2), "CDATA kept");
  string e = embed ? r.child("e").value() : r.child("e").first_child().value();
  REQUIRE_EQ(e.substr(0, on(4) ? 1 : 4), string(on(4) ? "<" : "&lt;"), "escapes expanded");
  REQUIRE_EQ(e.find('\r') == string::npos, on(5), "line ends normalised");
  string t = embed ? r.child("t").value() : r.child("t").first_child().value();
  REQUIRE_EQ(t, string(trim ? "in" : " in "), "text trimmed");
  string a = r.attribute("a").value();
  REQUIRE_EQ(a, string(on(7) ? "p q" : " p  q") + (on(4) ? "\t&" : "&#9;&amp;"), "attribute value");
  if (!trim) {
    if (!embed) REQUIRE_EQ(has(r, pugi::node_pcdata), ws && !single, "blank text between elements kept");
    if (!embed) REQUIRE_EQ(has(r.child("w"), pugi::node_pcdata), ws || single, "only blank text of an element kept");
  }
  if (frag) REQUIRE(has(d, pugi::node_pcdata), "text outside elements kept");
}

// The file is what the writer behind makes of the options so named.
PBT_TEST(format_flags, 12000, 200000) {
  static const struct { XMLFormatFlag f; unsigned p; } F[] = {
    {XMLFormatFlag::Indent, pugi::format_indent}, {XMLFormatFlag::WriteBOM, pugi::format_write_bom}, {XMLFormatFlag::Raw, pugi::format_raw}, {XMLFormatFlag::NoDeclaration, pugi::format_no_declaration},
    {XMLFormatFlag::NoEscapes, pugi::format_no_escapes}, {XMLFormatFlag::SaveFileText, pugi::format_save_file_text}, {XMLFormatFlag::IndentAttributes, pugi::format_indent_attributes},
    {XMLFormatFlag::NoEmptyElementTaggs, pugi::format_no_empty_element_tags}, {XMLFormatFlag::SkipControlChars, pugi::format_skip_control_chars}};
  static const pugi::xml_encoding E[] = {pugi::encoding_utf8, pugi::encoding_utf16_le, pugi::encoding_utf16_be, pugi::encoding_utf16, pugi::encoding_utf32_le, pugi::encoding_utf32_be, pugi::encoding_utf32, pugi::encoding_wchar, pugi::encoding_latin1};
  XMLFormatFlags ff;
  unsigned m = s.upto(9) == 0 ? 0 : (unsigned)s.bits(9), want = 0;
  for (int i = 0; i < 9; i++) if (m >> i & 1) ff += F[i].f, want |= F[i].p;
  int e = s.coin() ? -1 : (int)s.upto(8);
  pugi::xml_document doc;
  int budget = 20;
  auto root = doc.append_child(s.ident(6).c_str());
  grow(s, root, 0, budget, e != 8);
  root.append_attribute("ctl").set_value(s.pick({"\x01\x1f", "a\tb", "\n", "<&>\"'", "plain"}));
  root.append_child("ctl").append_child(pugi::node_pcdata).set_value(s.pick({"\x02x\x1b", "<&>", "a\nb", "]]>"}));
  root.append_child("none");
  string indent = s.pick({"\t", "  ", "", "....", "\t\t"});
  bool dflt = s.chance(1, 8), noIndent = !dflt && s.chance(1, 4), noEnc = e < 0 || noIndent || dflt;
  if (dflt) want = pugi::format_indent;
  if (noIndent || dflt) indent = "\t";
  string dir = dirName(), file = dir + "/o.xml";
  struct Clean { string d, f; ~Clean() { unlink(f.c_str()); rmdir(d.c_str()); } } clean{dir, file};
  if (dflt) XMLToFile(file, doc);
  else if (noIndent) XMLToFile(file, doc, ff);
  else if (noEnc) XMLToFile(file, doc, ff, indent.c_str());
  else XMLToFile(file, doc, ff, indent.c_str(), ENC[e]);
  std::ifstream is(file, std::ios::binary);
  std::stringstream bs, ref;
  bs << is.rdbuf();
  doc.save(ref, indent.c_str(), want, noEnc ? pugi::encoding_auto : E[e]);
  s.nontrivial();
  s.note([&](std::ostream &o) { o << "options " << want << " encoding " << (noEnc ? -1 : e) << " " << ref.str().size() << " bytes"; });
  REQUIRE(bs.str() == ref.str(), "file with options 0x" << std::hex << want << ", indentation '" << pbt::esc(indent) << "', encoding " << (noEnc ? -1 : e) << ": " << pbt::esc(bs.str().substr(0, 300)) << " vs " << pbt::esc(ref.str().substr(0, 300)));
}

static string gen(const std::exception &e) { return e.what(); }
PBT_TEST(failures, 12000, 200000) {
  string dir = dirName(), file = dir + "/" + s.ident(8) + ".xml", what = s.pick({"missing", "empty", "no element", "damaged", "folder missing", "folder"});
  s.nontrivial();
  s.note([&](std::ostream &o) { o << what; });
  int got = 0;
  string msg;
  struct Clean { string d, f; ~Clean() { unlink(f.c_str()); rmdir(d.c_str()); } } clean{dir, file};
  if (what == "folder missing") {
    pugi::xml_document doc;
    doc.append_child("a");
    file = dir + "/none/" + s.ident(5);
    try { XMLToFile(file, doc); } catch (const es::FileInvalidAccessError &e) { got = 4, msg = gen(e); } catch (const std::exception &e) { got = 9, msg = gen(e); }
    REQUIRE_EQ(got, 4, "error of a file that cannot be written: " << msg);
    REQUIRE(msg.find(file) != string::npos, "error does not name the file: " << msg);
    return;
  }
  if (what == "folder") {
    string path = s.coin() ? dir : dir + "/.";
    try { XMLFromFile(path); got = 5; }
    catch (const es::InvalidHeaderError &e) { got = 2, msg = gen(e); }
    catch (const std::runtime_error &e) { got = 3, msg = gen(e); }
    catch (const std::exception &e) { got = 9, msg = gen(e); }
    REQUIRE_EQ(got, 3, "outcome of reading a folder: " << msg);
    REQUIRE(msg.find(path) != string::npos && msg.find("[status_") != string::npos, "error of reading a folder: " << msg);
    try { pugi::xml_document doc; doc.append_child("a"); XMLToFile(path, doc); got = 5; }
    catch (const es::FileInvalidAccessError &e) { got = 4, msg = gen(e); }
    catch (const std::exception &e) { got = 9, msg = gen(e); }
    REQUIRE(got == 4 && msg.find(path) != string::npos, "outcome of writing a folder " << got << ": " << msg);
    return;
  }
  string body;
  if (what == "empty") body = string(s.upto(5), ' ');
  else if (what == "no element") body = s.pick({"<?xml version=\"1.0\"?>", "<!--c-->", "text only", "<?pi x?> <!-- x -->"});
  else if (what == "damaged") body = s.pick({"<a><b></a>", "<a", "<a b=1/>", "<a b=\"x/>", "<a></b>", "<a><![CDATA[x</a>", "<a><!-- x</a>", "<a></a></a>", "<?xml", "<!DOCTYPE a <a/>", "<a><!x></a>", "<a><?pi</a>", "<a></a", "<a b=\"1\"c=\"2\"/>", "< a/>", "<", "<1/>", "</a>"});
  if (what == "damaged" && s.coin()) body = "<?xml version=\"1.0\"?>\n" + body;
  else if (what == "damaged" && s.chance(1, 4)) { // far behind
    size_t n = s.chance(1, 8) ? s.pick({65530, 65536, 70000, 131072, 300000}) + s.upto(40) : s.upto(5000);
    body = s.coin() ? "<!--" + string(n, '-' + 1) + "-->" + body : string(n, '\n') + body;
  }
  if (what != "missing") std::ofstream(file) << body;
  try { auto d = XMLFromFile(file); got = d.document_element() ? 5 : 6; }
  catch (const es::FileNotFoundError &e) { got = 1, msg = gen(e); }
  catch (const es::InvalidHeaderError &e) { got = 2, msg = gen(e); }
  catch (const std::runtime_error &e) { got = 3, msg = gen(e); }
  catch (const std::exception &e) { got = 9, msg = gen(e); }
  int want = what == "missing" ? 1 : what == "damaged" ? 3 : 2;
  REQUIRE_EQ(got, want, "outcome (1 not found, 2 invalid header, 3 damaged, 5 read) of a file that is " << what << " <" << body << ">: " << msg);
  REQUIRE(!msg.empty(), "error without text");
  if (got != 2) REQUIRE(msg.find(file) != string::npos, "error does not name the file: " << msg);
  if (got == 3) {
    pugi::xml_document ref;
    auto r = ref.load_string(body.c_str());
    static const char *const names[] = {"status_ok", "status_file_not_found", "status_io_error", "status_out_of_memory", "status_internal_error", "status_unrecognized_tag", "status_bad_pi", "status_bad_comment", "status_bad_cdata", "status_bad_doctype",
                                        "status_bad_pcdata", "status_bad_start_element", "status_bad_attribute", "status_bad_end_element", "status_end_element_mismatch", "status_append_invalid_root", "status_no_document_element"};
    REQUIRE(msg.find("[" + string(names[r.status]) + "]") != string::npos, "reason " << names[r.status] << " not given: " << msg);
    REQUIRE(msg.find("offset " + std::to_string(r.offset)) != string::npos, "offset " << r.offset << " not given: " << msg);
  }
}

PBT_TEST(node_errors, 6000, 100000) {
  pugi::xml_document doc;
  int budget = 20;
  auto root = doc.append_child("root");
  grow(s, root, 0, budget, true);
  std::stringstream st;
  doc.save(st);
  pugi::xml_document d;
  d.load(st);
  std::vector<pugi::xml_node> all;
  struct W : pugi::xml_tree_walker { std::vector<pugi::xml_node> *v; bool for_each(pugi::xml_node &n) override { if (n.type() == pugi::node_element) v->push_back(n); return true; } } w;
  w.v = &all;
  (s.coin() ? d : doc).traverse(w);
  auto n = all[s.upto(all.size() - 1)];
  if (all.size() > 1) s.nontrivial();
  string id = s.ident(6), msg;
  int k = s.upto(2), got = -1;
  try {
    if (k == 0) throw XMLMissingNodeException(id, n);
    if (k == 1) throw XMLMissingNodeAttributeException(id, n);
    throw XMLEmptyData(n);
  } catch (const XMLMissingNodeException &e) { got = 0, msg = e.what(); }
  catch (const XMLMissingNodeAttributeException &e) { got = 1, msg = e.what(); }
  catch (const XMLEmptyData &e) { got = 2, msg = e.what(); }
  REQUIRE_EQ(got, k, "kind of error");
  REQUIRE(msg.find(n.name()) != string::npos, "error does not name the node: " << msg);
  if (k < 2) REQUIRE(msg.find(id) != string::npos, "error does not name what is missing: " << msg);
  try { throw XMLMissingNodeException(id, n); } catch (const XMLBaseException &e) { got = 7; }
  REQUIRE_EQ(got, 7, "errors of nodes have a common base");
  // the place given: distances between nodes of a text are those in the text
  if (!d.child("root")) return;
  all.clear();
  d.traverse(w);
  auto a = all[s.upto(all.size() - 1)], b = all[s.upto(all.size() - 1)];
  auto place = [&](pugi::xml_node x) {
    string m;
    try { if (k == 0) throw XMLMissingNodeException(id, x); if (k == 1) throw XMLMissingNodeAttributeException(id, x); throw XMLEmptyData(x); } catch (const std::exception &e) { m = e.what(); }
    size_t p = m.find("offset ");
    REQUIRE(p != string::npos && isdigit((unsigned char)m[p + 7]), "no place given: " << m);
    return atoll(m.c_str() + p + 7);
  };
  REQUIRE_EQ(place(a) - place(b), (long long)(a.offset_debug() - b.offset_debug()), "distance of <" << a.name() << "> and <" << b.name() << ">");
}
