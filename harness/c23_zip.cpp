// C23: ZIP virtual file system and ZIP records.
#include "pbt.hpp"
#include "datas/zip_vfs.hpp"
#include "formats/ZIP_ostream.inl"
#include <fstream>
#include <memory>
#include <unistd.h>
#include <thread>
using pbt::Src;

// ---------------------------------------------------------------- an archive writer of its own
static void le(std::string &o, uint64_t v, int n) { for (int i = 0; i < n; i++) o += (char)(v >> (8 * i)); }
static uint32_t crc32(const std::string &d) {
  uint32_t c = ~0u;
  for (unsigned char b : d) { c ^= b; for (int i = 0; i < 8; i++) c = c >> 1 ^ (c & 1 ? 0xEDB88320u : 0); }
  return ~c;
}
struct Entry {
  std::string name, data, extra, cextra, comment;
  uint16_t flags = 0, method = 0, time = 0, date = 0, madeBy = 0x031e, version = 20;
  bool dir = false;
  uint32_t at = 0;
  size_t dataAt = 0;
};
struct Opt {
  bool zip64 = false, sig = false, extraData = false;
  std::string comment, sigData, exData;
};
static std::string archive(std::vector<Entry> &es, const Opt &o) {
  std::string z;
  for (auto &e : es) {
    e.at = (uint32_t)z.size();
    z += "PK\x03\x04";
    le(z, e.version, 2), le(z, e.flags, 2), le(z, e.method, 2), le(z, e.time, 2), le(z, e.date, 2);
    le(z, crc32(e.data), 4), le(z, e.data.size(), 4), le(z, e.data.size(), 4), le(z, e.name.size(), 2), le(z, e.extra.size(), 2);
    z += e.name + e.extra;
    e.dataAt = z.size();
    z += e.data;
  }
  if (o.extraData) z += "PK\x06\x08", le(z, o.exData.size(), 4), z += o.exData;
  size_t cd = z.size();
  for (auto &e : es) {
    z += "PK\x01\x02";
    le(z, e.madeBy, 2), le(z, e.version, 2), le(z, e.flags, 2), le(z, e.method, 2), le(z, e.time, 2), le(z, e.date, 2);
    le(z, crc32(e.data), 4), le(z, e.data.size(), 4), le(z, e.data.size(), 4), le(z, e.name.size(), 2), le(z, e.cextra.size(), 2), le(z, e.comment.size(), 2);
    le(z, 0, 2), le(z, 0, 2), le(z, e.dir ? 0x10 : 0, 4), le(z, e.at, 4);
    z += e.name + e.cextra + e.comment;
  }
  if (o.sig) z += "PK\x05\x05", le(z, o.sigData.size(), 2), z += o.sigData;
  size_t cdn = z.size() - cd;
  if (o.zip64) {
    size_t at = z.size();
    z += "PK\x06\x06", le(z, 44, 8), le(z, 45, 2), le(z, 45, 2), le(z, 0, 4), le(z, 0, 4), le(z, es.size(), 8), le(z, es.size(), 8), le(z, cdn, 8), le(z, cd, 8);
    z += "PK\x06\x07", le(z, 0, 4), le(z, at, 8), le(z, 1, 4);
  }
  z += "PK\x05\x06";
  size_t n = std::min<size_t>(es.size(), 0xffff);
  le(z, 0, 2), le(z, 0, 2), le(z, n, 2), le(z, n, 2), le(z, cdn, 4), le(z, cd, 4), le(z, o.comment.size(), 2);
  return z + o.comment;
}
// bytes likely to upset a walker: signatures, zeros
static std::string stuff(Src &s, size_t max) {
  std::string r = s.bulk(s.size(max));
  if (s.chance(1, 3) && r.size() >= 8) {
    static const char *const sig[] = {"PK\x03\x04", "PK\x01\x02", "PK\x05\x06", "PK\x06\x06", "PK\x07\x08"};
    for (size_t k = 0, n = 1 + s.upto(3); k < n; k++) r.replace(s.upto(r.size() - 4), 4, s.pick(sig));
  }
  return r;
}
// fields of 16 bit size: mostly short, now and then around every power of two
static std::string field(Src &s, size_t usual) {
  if (!s.chance(1, 16)) return stuff(s, usual);
  static const size_t at[] = {127, 128, 255, 256, 257, 511, 512, 4095, 4096, 32767, 32768, 65531};
  std::string p = s.bulk(1 + s.upto(16)), r;
  size_t n = s.coin() ? s.pick(at) : s.range(usual, 65531);
  while (r.size() < n) r += p;
  r.resize(n);
  return r;
}
static std::vector<Entry> entries(Src &s, size_t maxFiles) {
  std::vector<Entry> es;
  std::set<std::string> used;
  size_t n = s.size(maxFiles);
  for (size_t i = 0; i < n; i++) {
    Entry e;
    size_t parts = 1 + s.size(3);
    for (size_t k = 0; k + 1 < parts; k++) e.name += s.ident(4) + "/";
    switch (s.upto(5)) {
    case 0: e.name += s.bytes(1 + s.upto(6)); break;
    case 1: e.name += s.ident(200); if (s.chance(1, 6)) e.name += std::string(s.coin() ? s.pick({100, 127, 128, 255, 256, 300}) : s.range(1, 40000), 'n'); break;
    default: e.name += s.ident(3) + (s.coin() ? ".dat" : "");
    }
    while (e.name.back() == '/') e.name += "x";
    if (s.chance(1, 8)) e.name += '/', e.dir = true;
    if (!used.insert(e.name).second) continue;
    if (!e.dir && !s.chance(1, 6)) e.data = stuff(s, s.chance(1, 20) ? 70000 : 200);
    if (s.chance(1, 3)) { std::string b = field(s, 60); le(e.extra, 0x5455 + s.upto(3), 2), le(e.extra, b.size(), 2), e.extra += b; }
    if (s.chance(1, 3)) { std::string b = field(s, 60); le(e.cextra, 0x5455, 2), le(e.cextra, b.size(), 2), e.cextra += b; }
    if (s.chance(1, 4)) e.comment = field(s, 300);
    if (s.chance(1, 4)) e.flags |= 1 << 11;
    if (s.chance(1, 6)) e.flags |= (uint16_t)(s.upto(3) << 1); // speed of a compression not used
    if (s.chance(1, 6)) e.madeBy = (uint16_t)s.bits(16), e.version = (uint16_t)s.pick({10, 20, 45, 63});
    e.time = (uint16_t)s.bits(16), e.date = (uint16_t)s.bits(16);
    es.push_back(e);
  }
  return es;
}
static Opt options(Src &s) {
  Opt o;
  o.zip64 = s.chance(1, 4), o.sig = s.chance(1, 8), o.extraData = s.chance(1, 8);
  if (s.chance(1, 3)) o.comment = field(s, 100);
  o.sigData = field(s, 100), o.exData = field(s, 100);
  return o;
}
static std::string all(ZIPVFSFile &f, size_t n, Src &s) {
  std::string r;
  if (s.coin()) { BinReaderRef rd(f); REQUIRE_EQ(rd.GetSize(), n, "size of an opened file"); REQUIRE_EQ(rd.Tell(), 0u, "place in an opened file"); rd.ReadContainer(r, n); }
  else { std::ostringstream o; if (n) o << f.buffer.rdbuf(); r = o.str(); }
  return r;
}

// an archive in memory or, now and then, in a file, where places behind the end can be sought
struct Source {
  std::istringstream mem;
  std::ifstream disk;
  std::string path;
  Source(Src &s, const std::string &z) {
    if (s.chance(3, 4)) { mem.str(z); return; }
    const char *w = getenv("PBT_WORK");
    path = std::string(w ? w : ".") + "/c23_" + std::to_string(getpid()) + ".zip";
    std::ofstream(path, std::ios::binary) << z;
    disk.open(path, std::ios::binary);
    REQUIRE(disk.good(), "no scratch file " << path);
    s.label("file on disk");
  }
  Source(const Source &) = delete;
  ~Source() { if (!path.empty()) unlink(path.c_str()); }
  std::istream &get() { return path.empty() ? (std::istream &)mem : disk; }
};
PBT_TEST(archives, 12000, 600000) {
  auto es = entries(s, s.chance(1, 400) ? 400 : 12);
  Opt o = options(s);
  std::string pre = s.chance(1, 6) ? stuff(s, 50) : "";
  Source src(s, pre + archive(es, o));
  std::istream &st = src.get();
  st.seekg((std::streamoff)pre.size());
  BinReaderRef rd(st);
  ZIPVFS vfs(rd);
  std::vector<const Entry *> files;
  for (auto &e : es) if (!e.dir) files.push_back(&e);
  REQUIRE_EQ(vfs.size(), files.size(), "files listed");
  REQUIRE_EQ(vfs.empty(), files.empty(), "emptiness");
  std::map<std::string, const Entry *> by;
  for (auto *e : files) by[e->name] = e;
  size_t seen = 0;
  for (auto &p : vfs) { REQUIRE(by.count(p.first), "listed name " << pbt::show(p.first) << " is not in the archive"); seen++; }
  REQUIRE_EQ(seen, files.size(), "files met");
  std::vector<std::pair<const Entry *, ZIPVFSFile>> open;
  size_t reads = files.empty() ? 0 : s.size(2 * files.size() + 4), total = 0;
  for (size_t k = 0; k < reads; k++) {
    const Entry *e = s.pick(files);
    auto it = vfs.find(e->name);
    REQUIRE(it != vfs.end(), "file " << pbt::show(e->name) << " is not found");
    switch (s.upto(4)) {
    case 0: { ZIPVFSFile f = vfs.Get(e->name); REQUIRE(all(f, e->data.size(), s) == e->data, "bytes of " << pbt::show(e->name)); break; }
    case 1: { ZIPVFSFile f = vfs.Get(it); REQUIRE(all(f, e->data.size(), s) == e->data, "bytes of " << pbt::show(e->name) << " by iterator"); break; }
    case 2: { ZIPVFSFile f = vfs.Get(vfs.at(e->name)); REQUIRE(all(f, e->data.size(), s) == e->data, "bytes of " << pbt::show(e->name) << " by place"); break; }
    default: // kept while others are opened
      open.emplace_back(e, vfs.Get(it));
      if (s.coin()) std::swap(open.front(), open[s.upto(open.size() - 1)]);
    if (e->data.size() >= 4 && s.chance(1, 4)) { // byte order and place go along with an opened file
      ZIPVFSFile f = vfs.Get(it), g = vfs.Get(it);
      bool swap = s.coin();
      size_t at = s.upto(e->data.size() - 4);
      f.reader.SwapEndian(swap), f.reader.Seek(at);
      if (s.coin()) { ZIPVFSFile h(std::move(f)); g = std::move(h); } else g = std::move(f);
      uint32 v, w;
      memcpy(&w, e->data.data() + at, 4);
      if (swap) w = __builtin_bswap32(w);
      REQUIRE_EQ(g.reader.Tell(), at, "place in a moved file");
      g.reader.Read(v);
      REQUIRE_EQ(v, w, "number in a moved file, swapped " << swap);
    }
    }
    total += e->data.size();
  }
  for (auto &p : open) REQUIRE(all(p.second, p.first->data.size(), s) == p.first->data, "bytes of " << pbt::show(p.first->name) << " kept open");
  for (size_t k = 0; k < 3; k++) {
    std::string miss = files.empty() || s.coin() ? s.ident(4) : s.pick(files)->name;
    if (s.coin() && miss.size()) miss.pop_back(); else if (s.coin()) miss += 'a';
    if (by.count(miss)) continue;
    REQUIRE(vfs.find(miss) == vfs.end(), "missing name " << pbt::show(miss) << " is found");
    bool thrown = false;
    try { vfs.Get(miss); } catch (const std::out_of_range &) { thrown = true; }
    REQUIRE(thrown, "opening the missing name " << pbt::show(miss) << " is not reported");
  }
  if (o.zip64) s.label("ZIP64 records");
  for (auto *e : files) if (e->data.empty()) { s.label("empty file"); break; }
  s.nontrivial(files.size() > 1 && reads > 1 && total > 0);
  s.note([&](std::ostream &q) { q << es.size() << " entries, " << reads << " opened, comment of " << o.comment.size(); for (size_t i = 0; i < es.size() && i < 4; i++) q << "; " << pbt::show(es[i].name).substr(0, 40) << " " << es[i].data.size() << " bytes"; });
}

// more files than the classic directory counts
PBT_TEST(many_files, 2, 60) {
  std::vector<Entry> es;
  size_t n = 65530 + s.upto(2000);
  uint64_t q = s.bits(32);
  for (size_t i = 0; i < n; i++) {
    Entry e;
    e.name = "d" + std::to_string(i % 7) + "/" + std::to_string(i);
    q = q * 6364136223846793005ull + 1;
    e.data.assign((size_t)(q >> 60), (char)(i * 31));
    es.push_back(e);
  }
  Opt o;
  o.zip64 = true;
  std::istringstream st(archive(es, o));
  ZIPVFS vfs{BinReaderRef(st)};
  REQUIRE_EQ(vfs.size(), n, "files listed");
  for (size_t k = 0; k < 200; k++) {
    auto &e = es[s.upto(n - 1)];
    ZIPVFSFile f = vfs.Get(e.name);
    REQUIRE(all(f, e.data.size(), s) == e.data, "bytes of " << e.name);
  }
  s.nontrivial(true);
}

// what the file system cannot give back is refused
PBT_TEST(refused, 8000, 300000) {
  auto es = entries(s, 6);
  Entry bad;
  bad.name = s.ident(5) + "?";
  bad.data = "x" + stuff(s, 100);
  int kind = (int)s.upto(3);
  static const uint16_t methods[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 18, 19, 93, 95, 96, 97, 98, 99};
  if (kind == 0 || kind == 2) bad.method = s.pick(methods);
  if (kind == 1 || kind == 2) { bad.flags |= 1; if (s.coin()) bad.flags |= 1 << 6; }
  if (kind == 3) {
    bad.name.clear();
    if (s.coin()) { std::string b = field(s, 60); le(bad.extra, 0x5455, 2), le(bad.extra, b.size(), 2), bad.extra += b; }
  }
  if (s.coin()) bad.flags |= 1 << 11;
  if (bad.method == 8 && s.coin()) bad.flags |= (uint16_t)(s.upto(3) << 1);
  es.insert(es.begin() + s.upto(es.size()), bad);
  Source src(s, archive(es, options(s)));
  bool thrown = false;
  try { ZIPVFS vfs{BinReaderRef(src.get())}; } catch (const std::runtime_error &) { thrown = true; }
  REQUIRE(thrown, "archive with method " << bad.method << ", flags " << bad.flags << ", name " << pbt::show(bad.name) << " was opened");
  s.nontrivial(es.size() > 1);
  s.note([&](std::ostream &q) { q << es.size() << " entries, one with method " << bad.method << " flags " << bad.flags; });
}

// any bytes: opening ends; what is listed lies in the archive
static void anything(Src &s, const std::string &z) {
  Source src(s, z);
  BinReaderRef rd(src.get());
  std::unique_ptr<ZIPVFS> vfs;
  try { vfs.reset(new ZIPVFS(rd)); } catch (const std::runtime_error &) { s.label("reported"); return; }
  s.label("opened");
  for (auto &p : *vfs) {
    size_t at = p.second.first, n = p.second.second;
    REQUIRE(at <= z.size() && n <= z.size() - at, "file of " << n << " bytes at " << at << " listed in an archive of " << z.size() << " bytes");
    ZIPVFSFile f = vfs->Get(p.first);
    REQUIRE(all(f, n, s) == z.substr(at, n), "bytes of listed file at " << at);
  }
}
PBT_TEST(damaged, 20000, 1500000) {
  auto es = entries(s, 5);
  std::string z = archive(es, options(s)), good = z;
  size_t k = 1 + s.size(4);
  for (size_t i = 0; i < k && !z.empty(); i++) {
    size_t p = s.upto(z.size() - 1);
    if (!es.empty() && s.coin()) { auto &e = s.pick(es); p = std::min<size_t>(z.size() - 1, e.at + s.upto(30)); } // headers of files
    switch (s.upto(5)) {
    case 0: z[p] = (char)s.bits(8); break;
    case 1: z[p] = (char)(z[p] ^ (1 << s.upto(7))); break;
    case 2: z.resize(p); break;
    case 3: z.erase(p, 1 + s.upto(40)); break;
    case 4: z.insert(p, s.bulk(s.upto(40))); break;
    default: for (size_t q = 0, n = 1 + s.upto(8); q < n && p + q < z.size(); q++) z[p + q] = (char)s.pick({0xff, 0x80, 0x7f, 0, 0xe2, 1});
    }
  }
  anything(s, z);
  s.nontrivial(z != good && es.size() > 0);
  s.note([&](std::ostream &o) { o << es.size() << " entries, " << good.size() << " bytes, " << k << " changes"; });
}
// the sizes of a record are not believed
PBT_TEST(huge_sizes, 8000, 300000) {
  auto es = entries(s, 4);
  if (es.empty()) return;
  std::string z = archive(es, options(s));
  for (size_t k = 0, n = 1 + s.upto(1); k < n; k++) {
    auto &e = s.pick(es);
    uint32_t big = s.pick({0xffffffffu, 0x80000000u, 0x7fffffffu, 0xffffff00u}) - (uint32_t)s.upto(200);
    if (s.chance(1, 3)) big = (uint32_t)(0u - 30 - e.name.size() - e.extra.size() - s.upto(1)); // back to this record
    std::string v;
    le(v, big, 4);
    size_t f = s.upto(2);
    if (f == 0 || f == 2) z.replace(e.at + 18, 4, v);
    else z.replace(e.at + 18, 4, std::string(4, '\0'));
    if (f >= 1) z.replace(e.at + 22, 4, v);
  }
  anything(s, z);
  s.nontrivial(true);
}
// a cut archive is not taken for a whole one: what is listed is complete
PBT_TEST(truncated, 8000, 300000) {
  auto es = entries(s, 6);
  std::string z = archive(es, options(s));
  size_t cut = s.upto(z.size() - 1);
  if (!es.empty() && s.coin()) { auto &e = s.pick(es); cut = std::min(z.size() - 1, e.at + s.upto(30 + e.name.size() + e.extra.size() + e.data.size())); }
  z.resize(cut);
  Source src(s, z);
  std::unique_ptr<ZIPVFS> vfs;
  try { vfs.reset(new ZIPVFS(BinReaderRef(src.get()))); } catch (const std::runtime_error &) { s.label("reported"); }
  if (vfs) {
    std::map<std::string, const Entry *> by;
    for (auto &e : es) by[e.name] = &e;
    for (auto &p : *vfs) {
      REQUIRE(by.count(p.first), "cut archive lists " << pbt::show(p.first));
      auto &e = *by[p.first];
      ZIPVFSFile f = vfs->Get(p.first);
      REQUIRE(all(f, e.data.size(), s) == e.data, "file " << pbt::show(p.first) << " of a cut archive has other bytes");
    }
  }
  s.nontrivial(es.size() > 1);
}

// files of gigabytes that nobody has to write: parts of a stream with other bytes between them
struct Sparse : std::streambuf {
  std::map<uint64_t, std::string> parts;
  uint64_t size = 0, at = 0;
  void add(const std::string &p) { if (!p.empty()) parts[size] = p, size += p.size(); }
  char byte(uint64_t p) const {
    auto f = parts.upper_bound(p);
    if (f != parts.begin() && p - std::prev(f)->first < std::prev(f)->second.size()) return std::prev(f)->second[p - std::prev(f)->first];
    return (char)((p * 0x9e3779b97f4a7c15ull) >> 56);
  }
  int_type underflow() override { return at < size ? traits_type::to_int_type(byte(at)) : traits_type::eof(); }
  int_type uflow() override { return at < size ? traits_type::to_int_type(byte(at++)) : traits_type::eof(); }
  std::streamsize xsgetn(char *d, std::streamsize n) override {
    std::streamsize k = 0;
    for (; k < n && at < size; k++) d[k] = byte(at++);
    return k;
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode) override {
    int64_t to = (w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? (int64_t)at : (int64_t)size) + o;
    if (to < 0 || (uint64_t)to > size) return pos_type(off_type(-1));
    return pos_type(off_type(at = to));
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
PBT_TEST(far_files, 3000, 60000) {
  struct Far { std::string name, extra; uint32_t n; uint64_t at; };
  std::vector<Far> fs;
  Sparse buf;
  size_t n = 1 + s.size(8);
  auto fields = [&](std::string &z, const Far &f, bool central) {
    if (central) le(z, 0x314, 2);
    le(z, 20, 2), le(z, 0, 2), le(z, 0, 2), le(z, 0, 2), le(z, 0x21, 2), le(z, 0, 4), le(z, f.n, 4), le(z, f.n, 4), le(z, f.name.size(), 2), le(z, central ? 0 : f.extra.size(), 2);
  };
  for (size_t i = 0; i < n; i++) {
    Far f;
    f.name = std::to_string(i) + "/" + s.ident(5);
    switch (s.upto(3)) {
    case 0: f.n = 0xffffffffu - (uint32_t)s.upto(4); break;
    case 1: f.n = (1u << s.range(16, 31)) + (uint32_t)s.irange(-3, 3); break;
    case 2: f.n = (uint32_t)s.bits(32) | 1; break;
    default: f.n = 1 + (uint32_t)s.upto(300);
    }
    if (s.chance(1, 3)) le(f.extra, 0x5455, 2), le(f.extra, 5, 2), f.extra += s.bulk(5);
    std::string z = "PK\x03\x04";
    fields(z, f, false);
    buf.add(z + f.name + f.extra);
    f.at = buf.size, buf.size += f.n;
    fs.push_back(f);
  }
  std::string z;
  for (auto &f : fs) {
    z += "PK\x01\x02";
    fields(z, f, true);
    le(z, 0, 2), le(z, 0, 2), le(z, 0, 2), le(z, 0, 4), le(z, 0xffffffffu, 4);
    z += f.name;
  }
  z += "PK\x05\x06", le(z, 0, 4), le(z, n, 2), le(z, n, 2), le(z, z.size(), 4), le(z, 0xffffffffu, 4), le(z, 0, 2);
  buf.add(z);
  std::istream st(&buf);
  ZIPVFS vfs{BinReaderRef(st)};
  REQUIRE_EQ(vfs.size(), n, "files listed");
  size_t opened = 0;
  for (auto &f : fs) {
    auto it = vfs.find(f.name);
    REQUIRE(it != vfs.end(), "file " << f.name << " of " << f.n << " bytes at " << f.at << " is not found");
    if (f.n > 100000) continue;
    std::string want, got;
    for (uint64_t p = f.at; p < f.at + f.n; p++) want += buf.byte(p);
    ZIPVFSFile o = vfs.Get(it);
    got = all(o, f.n, s);
    REQUIRE(got == want, "bytes of a file of " << f.n << " bytes at " << f.at);
    opened += f.at > 0xffff;
  }
  s.label("behind 4 GB", buf.size > 0xffffffffu);
  s.nontrivial(opened > 0);
  s.note([&](std::ostream &o) { o << n << " files in " << buf.size << " bytes, " << opened << " opened"; });
}

// files opened by several threads
PBT_TEST_THREADED(threads, 300, 12000) {
  auto es = entries(s, 8);
  std::vector<const Entry *> files;
  for (auto &e : es) if (!e.dir) files.push_back(&e);
  if (files.empty()) return;
  std::istringstream st(archive(es, options(s)));
  ZIPVFS vfs{BinReaderRef(st)};
  size_t nt = 2 + s.upto(3), per = 1 + s.size(20);
  std::vector<std::vector<const Entry *>> plan(nt);
  for (auto &p : plan) for (size_t k = 0; k < per; k++) p.push_back(s.pick(files));
  std::vector<std::string> bad(nt);
  std::vector<std::thread> th;
  for (size_t t = 0; t < nt; t++)
    th.emplace_back([&, t] {
      try {
        for (auto *e : plan[t]) {
          ZIPVFSFile f = vfs.Get(e->name);
          std::string r;
          BinReaderRef(f).ReadContainer(r, e->data.size());
          if (r != e->data && bad[t].empty()) bad[t] = e->name;
        }
      } catch (const std::exception &x) { bad[t] = x.what(); }
    });
  for (auto &t : th) t.join();
  for (auto &b : bad) REQUIRE(b.empty(), "file opened by one of " << nt << " threads has other bytes: " << pbt::show(b));
  s.nontrivial(files.size() > 1 && per > 1);
}

// ---------------------------------------------------------------- records
template <class R> static void record(Src &s, const std::string &want, const R &r) {
  std::stringstream st;
  std::string pre = s.bulk(s.upto(9));
  st << pre;
  BinWritterRef wr(st);
  wr.Seek(pre.size());
  wr.Write(r);
  REQUIRE(st.str() == pre + want, "record bytes " << pbt::show(st.str().substr(pre.size())) << " are not those of the format " << pbt::show(want));
  st << "tail";
  std::istringstream in(st.str());
  BinReaderRef rd(in);
  rd.Seek(pre.size());
  R b;
  memset((void *)&b, 0xa5, sizeof b);
  rd.Read(b);
  REQUIRE_EQ(rd.Tell(), pre.size() + want.size(), "place after the record");
  std::ostringstream o2;
  BinWritterRef w2(o2);
  w2.Write(b);
  REQUIRE(o2.str() == want, "record read and written again");
}
#define SETF(f, n) do { REQUIRE(sizeof(r.f) >= n, "the field " #f " cannot hold its values"); uint64_t v_ = s.bits(8 * n); memcpy(&r.f, &v_, n); le(want, v_, n); } while (0)
// numbers of methods and flags as in the format
template <class R> static void named(Src &s, size_t at) {
  using M = ZIPCompressionMethod;
  using F = ZIPLocalFlag;
  static const std::pair<M, unsigned> ms[] = {{M::Store, 0}, {M::Shrunk, 1}, {M::Reduce1, 2}, {M::Reduce2, 3}, {M::Reduce3, 4}, {M::Reduce4, 5}, {M::Implode, 6}, {M::Tokenize, 7}, {M::Deflate, 8}, {M::Deflate64, 9}, {M::BZIP2, 12}, {M::LZMA, 14}, {M::CMPSC, 16}, {M::TERSE, 18}, {M::IBM_LZ77, 19}, {M::JPEG, 96}, {M::WavPack, 97}, {M::PPMd, 98}, {M::AEx, 99}};
  static const std::pair<F, unsigned> fs[] = {{F::Encrypted, 0}, {F::CFlag0, 1}, {F::CFlag1, 2}, {F::DataDescriptor, 3}, {F::EnhancedDeflate, 4}, {F::PatchedData, 5}, {F::StronkEncryption, 6}, {F::StringsInUTF8, 11}, {F::StronkEncryptSpecific, 13}};
  std::string bytes = s.bulk(64);
  auto &m = s.pick(ms);
  unsigned flags = (unsigned)s.bits(16);
  bytes[at] = (char)flags, bytes[at + 1] = (char)(flags >> 8), bytes[at + 2] = (char)m.second, bytes[at + 3] = 0;
  std::istringstream in(bytes);
  BinReaderRef rd(in);
  R r;
  rd.Read(r);
  REQUIRE(r.compression == m.first, "compression method " << m.second << " read as " << (unsigned)r.compression);
  for (auto &f : fs) REQUIRE_EQ((bool)r.flags[f.first], bool(flags >> f.second & 1), "flag of bit " << f.second << " in " << flags);
  s.nontrivial(true);
}
PBT_TEST(method_names, 2000, 40000) {
  if (s.coin()) named<ZIPLocalFile>(s, 6);
  else named<ZIPFile>(s, 8);
}
PBT_TEST(records, 12000, 400000) {
  std::string want;
  switch (s.upto(5)) {
  case 0: { ZIPLocalFile r; r.id = ZIPLocalFile::ID; want = "PK\x03\x04";
    SETF(extractVersion, 2); SETF(flags, 2); SETF(compression, 2); SETF(lastModFileTime, 2); SETF(lastModFileDate, 2); SETF(crc, 4); SETF(compressedSize, 4); SETF(uncompressedSize, 4); SETF(fileNameSize, 2); SETF(extraFieldSize, 2);
    record(s, want, r); break; }
  case 1: { ZIPFile r; r.id = ZIPFile::ID; want = "PK\x01\x02";
    SETF(madeBy, 2); SETF(extractVersion, 2); SETF(flags, 2); SETF(compression, 2); SETF(lastModFileTime, 2); SETF(lastModFileDate, 2); SETF(crc, 4); SETF(compressedSize, 4); SETF(uncompressedSize, 4); SETF(fileNameSize, 2); SETF(extraFieldSize, 2); SETF(fileCommentSize, 2); SETF(diskNumberStart, 2); SETF(internalFileAttrs, 2); SETF(externalFileAttrs, 4); SETF(localHeaderOffset, 4);
    record(s, want, r); break; }
  case 2: { ZIPSignature r; r.id = ZIPSignature::ID; want = "PK\x05\x05"; SETF(dataSize, 2); record(s, want, r); break; }
  case 3: { ZIPCentralDir r; r.id = ZIPCentralDir::ID; want = "PK\x05\x06";
    SETF(diskNumber, 2); SETF(startDiskNumber, 2); SETF(numDiskEntries, 2); SETF(numDirEntries, 2); SETF(dirSize, 4); SETF(dirOffset, 4); SETF(commentSize, 2);
    record(s, want, r); break; }
  case 4: { ZIP64CentralDir r; r.id = ZIP64CentralDir::ID; want = "PK\x06\x06";
    SETF(dirRecord, 8); SETF(madeBy, 2); SETF(extractVersion, 2); SETF(diskNumber, 4); SETF(startDiskNumber, 4); SETF(numDiskEntries, 8); SETF(numDirEntries, 8); SETF(dirSize, 8); SETF(dirOffset, 8);
    record(s, want, r); break; }
  default: { ZIP64CentralDirLocator r; r.id = ZIP64CentralDirLocator::ID; want = "PK\x06\x07";
    SETF(diskNumber, 4); SETF(centralDirOffset, 8); SETF(numDisks, 4); record(s, want, r); break; }
  }
  s.nontrivial(true);
}
