// C01: binary streams against a plain byte buffer.
#include "pbt.hpp"
#include "datas/base_128.hpp"
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include <sstream>
#include <array>
using pbt::Src;
using std::string;

// ---- types ----------------------------------------------------------------
enum class E16 : uint16 { A, B };
enum class E64 : uint64 { A };
struct Swapped { // has its own swapping: two halves of different width
  uint16 a;
  uint16 pad;
  uint32 b;
  void SwapEndian() {
    FByteswapper(a);
    FByteswapper(pad);
    FByteswapper(b);
  }
  bool operator==(const Swapped &o) const {
    return a == o.a && b == o.b && pad == o.pad;
  }
};
template <size_t N> struct SwapDirN { // direction-aware, the two ways differ
  uint32 v[N];
  void SwapEndian(bool out) {
    for (uint32 i = 0; i < N; i++) {
      if (out) v[i] ^= 0x12345678 + i;
      FByteswapper(v[i]);
      if (!out) v[i] ^= 0x12345678 + i;
    }
  }
  bool operator==(const SwapDirN &o) const { return !memcmp(v, o.v, sizeof v); }
};
typedef SwapDirN<1> SwapDir;
typedef SwapDirN<6> SwapDirBig;
struct Custom { // custom reader/writer, 7 bytes
  uint32 a;
  uint8 b;
  uint16 c;
  void Write(BinWritterRef wr) const {
    wr.Write(a);
    wr.Write(b);
    wr.Write(c);
  }
  void Read(BinReaderRef rd) {
    rd.Read(a);
    rd.Read(b);
    rd.Read(c);
  }
  bool operator==(const Custom &o) const {
    return a == o.a && b == o.b && c == o.c;
  }
};

template <class U> string rawBytes(U v, bool swap) {
  string s((const char *)&v, sizeof v);
  if (swap)
    std::reverse(s.begin(), s.end());
  return s;
}

// generator and byte encoder per type
template <class T> struct G {
  static T gen(Src &s) {
    uint64_t b = s.bits(sizeof(T) * 8);
    T r;
    memcpy(&r, &b, sizeof r);
    return r;
  }
  static string enc(const T &v, bool swap) { return rawBytes(v, swap); }
  static bool eq(const T &a, const T &b) { return !memcmp(&a, &b, sizeof a); }
  static const size_t SIZE = sizeof(T);
};
template <> struct G<Swapped> {
  static Swapped gen(Src &s) {
    return {G<uint16>::gen(s), G<uint16>::gen(s), G<uint32>::gen(s)};
  }
  static string enc(const Swapped &v, bool sw) {
    return rawBytes(v.a, sw) + rawBytes(v.pad, sw) + rawBytes(v.b, sw);
  }
  static bool eq(const Swapped &a, const Swapped &b) { return a == b; }
  static const size_t SIZE = 8;
};
template <size_t N> struct G<SwapDirN<N>> {
  static SwapDirN<N> gen(Src &s) {
    SwapDirN<N> r;
    for (auto &v : r.v) v = G<uint32>::gen(s);
    return r;
  }
  static string enc(const SwapDirN<N> &v, bool sw) {
    string r;
    for (uint32 i = 0; i < N; i++) r += sw ? rawBytes<uint32>(v.v[i] ^ (0x12345678 + i), true) : rawBytes<uint32>(v.v[i], false);
    return r;
  }
  static bool eq(const SwapDirN<N> &a, const SwapDirN<N> &b) { return a == b; }
  static const size_t SIZE = N * 4;
};
template <> struct G<Custom> {
  static Custom gen(Src &s) {
    return {G<uint32>::gen(s), G<uint8>::gen(s), G<uint16>::gen(s)};
  }
  static string enc(const Custom &v, bool sw) {
    return rawBytes(v.a, sw) + rawBytes(v.b, sw) + rawBytes(v.c, sw);
  }
  static bool eq(const Custom &a, const Custom &b) { return a == b; }
  static const size_t SIZE = 7;
};

// ---- model ----------------------------------------------------------------
struct Model {
  string buf;
  size_t pos = 0, origin = 0, saved = 0;
  bool swap = false;
  void put(const string &b) {
    if (pos + b.size() > buf.size())
      buf.resize(pos + b.size());
    memcpy(&buf[pos], b.data(), b.size());
    pos += b.size();
  }
};

struct Item { // one thing written, and how to read it back
  std::function<void(BinWritterRef &)> write;
  std::function<void(const BinReaderRef &)> readCheck;
  string bytes; // expected
  string name;
};

template <class T> Item single(Src &s, bool sw, const char *n) {
  T v = G<T>::gen(s);
  Item it;
  it.name = n;
  it.bytes = G<T>::enc(v, sw);
  it.write = [v](BinWritterRef &w) { w.Write(v); };
  it.readCheck = [v, n](const BinReaderRef &r) {
    T o;
    memset((void *)&o, 0x5a, sizeof o);
    r.Read(o);
    REQUIRE(G<T>::eq(o, v), n << " read back differs");
  };
  return it;
}

template <class T, size_t N> Item fixedArray(Src &s, bool sw, const char *n) {
  std::array<T, N> v;
  Item it;
  it.name = string(n) + "[" + std::to_string(N) + "]";
  for (auto &e : v) {
    e = G<T>::gen(s);
    it.bytes += G<T>::enc(e, sw);
  }
  it.write = [v](BinWritterRef &w) {
    T a[N];
    memcpy((void *)a, (const void *)v.data(), sizeof a);
    w.Write(a);
  };
  it.readCheck = [v, n](const BinReaderRef &r) {
    T a[N];
    memset((void *)a, 0x5a, sizeof a);
    r.Read(a);
    for (size_t i = 0; i < N; i++)
      REQUIRE(G<T>::eq(a[i], v[i]), n << " array element " << i << " differs");
  };
  return it;
}

template <class C> void encCount(string &out, size_t n, bool sw) {
  out += rawBytes<C>((C)n, sw);
}
template <> void encCount<buint128>(string &out, size_t n, bool) {
  do {
    uint8 b = n & 0x7f;
    n >>= 7;
    out += (char)(b | (n ? 0x80 : 0));
  } while (n);
}

// with and without naming the type of the count, which is uint32 unless named
template <class Cnt> struct Counted {
  template <class C> static void write(BinWritterRef &w, C &c) { w.template WriteContainerWCount<Cnt>(c); }
  template <class C, class F> static void write(BinWritterRef &w, C &c, F f) { w.template WriteContainerLambda<Cnt>(c, f); }
  template <class C> static void read(const BinReaderRef &r, C &c) { r.template ReadContainer<Cnt>(c); }
  template <class C, class F> static void read(const BinReaderRef &r, C &c, F f) { r.template ReadContainerLambda<Cnt>(c, f); }
};
struct DefaultCount;
template <> struct Counted<DefaultCount> {
  template <class C> static void write(BinWritterRef &w, C &c) { w.WriteContainerWCount(c); }
  template <class C, class F> static void write(BinWritterRef &w, C &c, F f) { w.WriteContainerLambda(c, f); }
  template <class C> static void read(const BinReaderRef &r, C &c) { r.ReadContainer(c); }
  template <class C, class F> static void read(const BinReaderRef &r, C &c, F f) { r.ReadContainerLambda(c, f); }
};
template <> void encCount<DefaultCount>(string &out, size_t n, bool sw) { encCount<uint32>(out, n, sw); }

// mode 0: no count, 1: count, 2: count + lambda, 3: lambda
template <class T, class Cnt>
Item container(Src &s, bool sw, int mode, size_t n, const char *nm) {
  std::vector<T> v(n);
  Item it;
  it.name = string(nm) + "-container/" + std::to_string(mode) + "x" +
            std::to_string(n);
  if (mode == 1 || mode == 2)
    encCount<Cnt>(it.bytes, n, sw);
  for (auto &e : v) {
    e = G<T>::gen(s);
    if (mode == 2)
      it.bytes += '\x7e';
    it.bytes += G<T>::enc(e, sw);
  }
  size_t pre = s.upto(3); // destination not empty to begin with
  it.write = [v, mode](BinWritterRef &w) mutable {
    if (mode == 0 || mode == 3)
      w.WriteContainer(v);
    else if (mode == 1)
      Counted<Cnt>::write(w, v);
    else
      Counted<Cnt>::write(w, v, [](BinWritterRef wr, const T &e) {
        wr.Write<uint8>(0x7e);
        wr.Write(e);
      });
  };
  it.readCheck = [v, mode, pre, n](const BinReaderRef &r) {
    std::vector<T> o(pre);
    if (mode == 0)
      r.ReadContainer(o, n);
    else if (mode == 1)
      Counted<Cnt>::read(r, o);
    else if (mode == 3)
      r.ReadContainerLambda(o, n, [](BinReaderRef rd, T &e) { rd.Read(e); });
    else
      Counted<Cnt>::read(r, o, [](BinReaderRef rd, T &e) {
        uint8 m;
        rd.Read(m);
        REQUIRE(m == 0x7e, "callback marker");
        rd.Read(e);
      });
    REQUIRE_EQ(o.size(), v.size(), "container size");
    for (size_t i = 0; i < v.size(); i++)
      REQUIRE(G<T>::eq(o[i], v[i]), "container element " << i << " differs");
  };
  return it;
}

template <class T>
Item anyContainer(Src &s, bool sw, const char *nm) {
  int mode = (int)s.upto(3);
  size_t n = s.chance(1, 80) ? s.range(200, 700) : s.size(40);
  switch (s.upto(5)) {
  case 5:
    return container<T, DefaultCount>(s, sw, mode, n, nm);
  case 0:
    return container<T, uint32>(s, sw, mode, n, nm);
  case 1:
    if (n > 255)
      return container<T, uint16>(s, sw, mode, n, nm);
    return container<T, uint8>(s, sw, mode, n, nm);
  case 2:
    return container<T, uint16>(s, sw, mode, n, nm);
  case 3:
    return container<T, uint64>(s, sw, mode, n, nm);
  default:
    return container<T, buint128>(s, sw, mode, n, nm);
  }
}

static Item stdString(Src &s, bool sw) {
  Item it;
  size_t n = s.chance(1, 100) ? s.range(1000, 65535) : s.size(300);
  string v = s.bulk(n);
  int mode = (int)s.upto(2);
  it.name = "string/" + std::to_string(mode) + "x" + std::to_string(n);
  if (mode == 1)
    encCount<uint32>(it.bytes, n, sw);
  if (mode == 2)
    encCount<uint16>(it.bytes, n, sw);
  it.bytes += v;
  it.write = [v, mode](BinWritterRef &w) {
    if (!mode)
      w.WriteContainer(v);
    else if (mode == 1)
      w.WriteContainerWCount(v);
    else
      w.WriteContainerWCount<uint16>(es::string_view(v));
  };
  it.readCheck = [v, mode, n](const BinReaderRef &r) {
    string o("old");
    if (!mode)
      r.ReadContainer(o, n);
    else if (mode == 1)
      r.ReadContainer(o);
    else
      r.ReadContainer<uint16>(o);
    REQUIRE_EQ(o, v, "string");
  };
  return it;
}

static Item cString(Src &s, bool sw) {
  Item it;
  size_t n = s.chance(1, 100) ? s.range(200, 1500) : s.size(60);
  string v;
  for (size_t i = 0; i < n; i++)
    v += (char)(1 + s.upto(254));
  it.name = "cstring" + pbt::esc(v);
  it.bytes = v + string(1, '\0');
  it.write = [v](BinWritterRef &w) { w.WriteT(es::string_view(v)); };
  it.readCheck = [v](const BinReaderRef &r) {
    string o;
    r.ReadString(o);
    REQUIRE_EQ(o, v, "zero-terminated string");
  };
  return it;
}
static Item wString(Src &s, bool sw) {
  Item it;
  size_t n = s.size(30);
  std::wstring v;
  for (size_t i = 0; i < n; i++)
    v += (wchar_t)(1 + s.bits(20));
  it.name = "wstring x" + std::to_string(n);
  for (auto c : v)
    it.bytes += rawBytes(c, sw);
  it.bytes += rawBytes<wchar_t>(0, false);
  it.write = [v](BinWritterRef &w) { w.WriteT(es::wstring_view(v)); };
  it.readCheck = [v](const BinReaderRef &r) {
    std::wstring o;
    r.ReadString(o);
    REQUIRE(o == v, "wide zero-terminated string");
  };
  return it;
}
static Item rawBuf(Src &s, bool) {
  Item it;
  string v = s.bulk(s.chance(1, 100) ? s.range(1000, 70000) : s.size(500));
  it.name = "buffer x" + std::to_string(v.size());
  it.bytes = v;
  it.write = [v](BinWritterRef &w) { w.WriteBuffer(v.data(), v.size()); };
  it.readCheck = [v](const BinReaderRef &r) {
    string o(v.size(), 'q');
    r.ReadBuffer(&o[0], o.size());
    REQUIRE(o == v, "raw buffer");
  };
  return it;
}

static Item anyItem(Src &s, bool sw) {
  switch (s.upto(40)) {
  case 37: return single<SwapDirBig>(s, sw, "swapbig");
  case 38: return fixedArray<SwapDirBig, 3>(s, sw, "swapbig");
  case 39: return anyContainer<SwapDirBig>(s, sw, "swapbig");
  case 0: return single<uint8>(s, sw, "u8");
  case 1: return single<char>(s, sw, "i8");
  case 2: return single<uint16>(s, sw, "u16");
  case 3: return single<int16>(s, sw, "i16");
  case 4: return single<uint32>(s, sw, "u32");
  case 5: return single<int32>(s, sw, "i32");
  case 6: return single<uint64>(s, sw, "u64");
  case 7: return single<int64>(s, sw, "i64");
  case 8: return single<float>(s, sw, "float");
  case 9: return single<double>(s, sw, "double");
  case 10: return single<E16>(s, sw, "enum16");
  case 11: return single<E64>(s, sw, "enum64");
  case 12: return single<Swapped>(s, sw, "swappable");
  case 13: return single<SwapDir>(s, sw, "swapdir");
  case 14: return single<Custom>(s, sw, "custom");
  case 15: return fixedArray<uint8, 5>(s, sw, "u8");
  case 16: return fixedArray<uint16, 3>(s, sw, "u16");
  case 17: return fixedArray<uint32, 4>(s, sw, "u32");
  case 18: return fixedArray<uint64, 2>(s, sw, "u64");
  case 19: return fixedArray<float, 7>(s, sw, "float");
  case 20: return fixedArray<Swapped, 3>(s, sw, "swappable");
  case 21: return fixedArray<SwapDir, 2>(s, sw, "swapdir");
  case 22: return anyContainer<uint8>(s, sw, "u8");
  case 23: return anyContainer<uint16>(s, sw, "u16");
  case 24: return anyContainer<int32>(s, sw, "i32");
  case 25: return anyContainer<uint64>(s, sw, "u64");
  case 26: return anyContainer<float>(s, sw, "float");
  case 27: return anyContainer<double>(s, sw, "double");
  case 28: return anyContainer<Swapped>(s, sw, "swappable");
  case 29: return anyContainer<SwapDir>(s, sw, "swapdir");
  case 30:
  case 31: return anyContainer<Custom>(s, sw, "custom");
  case 32: return stdString(s, sw);
  case 33: return cString(s, sw);
  case 34: return wString(s, sw);
  case 35: return rawBuf(s, sw);
  case 36: return anyContainer<E16>(s, sw, "enum16");
  default: return fixedArray<int16, 1>(s, sw, "i16");
  }
}

static string workFile(const char *n) {
  const char *w = getenv("PBT_WORK");
  return string(w ? w : ".") + "/" + n;
}
static string slurp(const string &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

// 1. straight sequences: bytes exact, read back equal, position right after
PBT_TEST(sequence_round_trip, 400000, 8000000) {
  bool file = s.chance(1, 40);
  size_t n = s.range(1, 12);
  bool sw = s.coin();
  std::vector<Item> items;
  std::vector<bool> sws;
  string expect;
  bool mixed = false, cont = false;
  for (size_t i = 0; i < n; i++) {
    if (s.chance(1, 4)) {
      sw = !sw;
      mixed = true;
    }
    items.push_back(anyItem(s, sw));
    sws.push_back(sw);
    expect += items.back().bytes;
    cont |= items.back().bytes.size() > 8;
  }
  s.nontrivial(n >= 2 && cont);
  s.label("file", file);
  s.label("mixed byte order", mixed);
  s.note([&](std::ostream &o) {
    o << (file ? "file " : "memory ");
    for (size_t i = 0; i < n; i++)
      o << (sws[i] ? "swapped:" : "") << items[i].name << ' ';
  });
  auto writeAll = [&](BinWritterRef &wr) {
    size_t at = 0;
    for (size_t i = 0; i < n; i++) {
      wr.SwapEndian(sws[i]);
      REQUIRE_EQ(wr.SwappedEndian(), (bool)sws[i], "byte order query");
      items[i].write(wr);
      at += items[i].bytes.size();
      REQUIRE_EQ(wr.Tell(), at, "position after writing " << items[i].name);
    }
  };
  auto readAll = [&](BinReaderRef &rd) {
    size_t at = 0;
    for (size_t i = 0; i < n; i++) {
      rd.SwapEndian(sws[i]);
      items[i].readCheck(rd);
      at += items[i].bytes.size();
      REQUIRE_EQ(rd.Tell(), at, "position after reading " << items[i].name);
    }
    REQUIRE_EQ(rd.GetSize(), expect.size(), "size");
    REQUIRE_EQ(rd.Tell(), expect.size(), "size query moved the position");
  };
  auto diff = [&](const string &got) {
    if (got != expect) {
      size_t at = 0;
      while (at < got.size() && at < expect.size() && got[at] == expect[at])
        at++;
      size_t k = 0, acc = 0;
      while (k < n && acc + items[k].bytes.size() <= at)
        acc += items[k++].bytes.size();
      pbt::fail("bytes differ at " + std::to_string(at) + " in " +
                (k < n ? items[k].name : string("tail")) + ", sizes " +
                std::to_string(got.size()) + "/" +
                std::to_string(expect.size()));
    }
  };
  if (file) {
    string p = workFile("seq.bin");
    {
      BinWritter wr(p);
      REQUIRE(wr.IsValid(), "file writer valid");
      BinWritterRef &w = wr;
      writeAll(w);
    }
    diff(slurp(p));
    {
      BinReader rd;
      rd.Open(p);
      REQUIRE(rd.IsValid(), "file reader valid");
      BinReaderRef &r = rd;
      readAll(r);
    }
    unlink(p.c_str());
  } else {
    std::stringstream ss;
    BinWritterRef wr(ss);
    writeAll(wr);
    diff(ss.str());
    BinReaderRef rd(ss);
    readAll(rd);
  }
}

template <class Stream>
static void navCommon(Src &s, Model &m, Stream &st, bool writer,
                      std::ostringstream &log) {
  size_t op = s.upto(9);
  size_t size = m.buf.size();
  switch (op) {
  case 0: { // absolute (relative to origin)
    size_t to = s.upto(size);
    if (to < m.origin)
      to = std::min(size, m.origin);
    log << "seek(" << to - m.origin << ") ";
    st.Seek(to - m.origin);
    m.pos = to;
    break;
  }
  case 1: { // relative
    int64_t d = s.irange(-(int64_t)m.pos, (int64_t)(size - m.pos));
    log << "seek(" << d << ",cur) ";
    st.Seek((size_t)d, std::ios_base::cur);
    m.pos += d;
    break;
  }
  case 2: {
    size_t d = s.upto(size);
    log << "seek(-" << d << ",end) ";
    st.Seek((size_t)(-(int64_t)d), std::ios_base::end);
    m.pos = size - d;
    break;
  }
  case 3:
    log << "push ";
    m.saved = m.pos;
    {
      size_t r = st.Push();
      if (!m.origin)
        REQUIRE_EQ(r, m.pos, "push");
    }
    break;
  case 4:
    log << "pop ";
    st.Pop();
    m.pos = m.saved;
    break;
  case 5: { // backward skip
    size_t d = s.upto(m.pos);
    log << "skip(-" << d << ") ";
    st.Skip(-(int)d);
    m.pos -= d;
    break;
  }
  case 6: {
    size_t o = s.upto(size);
    bool use = s.coin();
    log << "origin(" << o << "," << use << ") ";
    if (use && s.coin())
      st.SetRelativeOrigin(o); // goes there by default
    else
      st.SetRelativeOrigin(o, use);
    m.origin = o;
    if (use)
      m.pos = o;
    break;
  }
  case 7: {
    bool use = s.coin();
    log << "resetorigin(" << use << ") ";
    if (use && s.coin())
      st.ResetRelativeOrigin();
    else
      st.ResetRelativeOrigin(use);
    m.origin = 0;
    if (use)
      m.pos = 0;
    break;
  }
  case 8: {
    int al = 1 << (s.chance(1, 60) ? s.range(8, 17) : s.upto(7));
    size_t rel = m.pos - m.origin;
    size_t add = (al - (rel & (al - 1))) & (al - 1);
    if (!writer && m.pos + add > size)
      break;
    log << "pad(" << al << ") ";
    if (al == 16 && s.coin())
      st.ApplyPadding();
    else
      st.ApplyPadding(al);
    if (writer)
      m.put(string(add, '\0'));
    else
      m.pos += add;
    REQUIRE((st.Tell() & (al - 1)) == 0, "not aligned after padding");
    break;
  }
  case 9:
    log << "size ";
    REQUIRE_EQ(st.GetSize(), m.buf.size() - m.origin, "size");
    break;
  }
  REQUIRE_EQ(st.Tell(), m.pos - m.origin, "position after " << log.str());
}

// 2. histories of writes with navigation
PBT_TEST(write_history, 300000, 6000000) {
  std::stringstream ss;
  string p = workFile("hist.bin");
  bool file = s.chance(1, 40);
  std::unique_ptr<BinWritter> fw;
  std::unique_ptr<BinWritterRef> mw;
  if (file)
    fw.reset(new BinWritter(p));
  else
    mw.reset(new BinWritterRef(ss));
  BinWritterRef &wr = file ? *fw : *mw;
  Model m;
  std::ostringstream log;
  size_t n = s.range(2, 40);
  unsigned navs = 0, overw = 0;
  // an empty stream cannot be positioned: begin with something
  {
    string b = s.bulk(s.range(1, 20));
    wr.WriteBuffer(b.data(), b.size());
    m.put(b);
  }
  for (size_t i = 0; i < n; i++) {
    if (s.coin()) {
      navCommon(s, m, wr, true, log);
      navs++;
    } else if (s.chance(1, 4)) {
      size_t k = s.chance(1, 60) ? s.range(1000, 70000) : s.chance(1, 2000) ? s.range(100000, 300000) : s.size(150);
      log << "skip(" << k << ") ";
      wr.Skip((int)k);
      m.put(string(k, '\0'));
    } else if (s.chance(1, 10)) {
      log << "skip<u64> ";
      wr.template Skip<uint64>();
      m.put(string(8, '\0'));
    } else {
      if (s.chance(1, 4)) {
        m.swap = !m.swap;
        wr.SwapEndian(m.swap);
      }
      Item it = anyItem(s, m.swap);
      log << "write " << (m.swap ? "swapped " : "") << it.name << " ";
      overw += m.pos < m.buf.size();
      it.write(wr);
      m.put(it.bytes);
    }
    REQUIRE_EQ(wr.Tell(), m.pos - m.origin, "position: " << log.str());
  }
  s.nontrivial(navs >= 2 && overw >= 1);
  s.label("overwrites", overw > 0);
  s.note([&](std::ostream &o) { o << log.str(); });
  if (file) {
    fw.reset();
    string got = slurp(p);
    unlink(p.c_str());
    REQUIRE(got == m.buf, "file content differs: " << log.str());
  } else
    REQUIRE(ss.str() == m.buf, "content differs: " << log.str());
}

template <class T>
static void readAt(Model &m, BinReaderRef &rd, std::ostringstream &log,
                   const char *n) {
  if (m.pos + sizeof(T) > m.buf.size())
    return;
  log << "read " << n << " ";
  T v;
  rd.Read(v);
  string raw = m.buf.substr(m.pos, sizeof(T));
  if (m.swap)
    std::reverse(raw.begin(), raw.end());
  REQUIRE(!memcmp(&v, raw.data(), sizeof(T)), n << " at " << m.pos << ": "
                                                << log.str());
  m.pos += sizeof(T);
}

// 3. histories of reads with navigation over an arbitrary buffer
PBT_TEST(read_history, 300000, 6000000) {
  Model m;
  m.buf = s.bulk(s.chance(1, 200) ? s.range(5000, 70000) : s.chance(1, 1000) ? s.range(66000, 200000) : s.range(1, 300));
  for (int i = 0, z = (int)s.upto(4); i < z; i++)
    m.buf[s.upto(m.buf.size() - 1)] = 0;
  string p = workFile("rhist.bin");
  bool file = s.chance(1, 40);
  std::istringstream is(m.buf);
  std::unique_ptr<BinReader> fr;
  std::unique_ptr<BinReaderRef> mr;
  if (file) {
    std::ofstream(p, std::ios::binary) << m.buf;
    fr.reset(new BinReader(p.c_str()));
  } else
    mr.reset(new BinReaderRef(is));
  BinReaderRef &rd = file ? *fr : *mr;
  std::ostringstream log;
  size_t n = s.range(2, 40);
  unsigned navs = 0, reads = 0;
  for (size_t i = 0; i < n; i++) {
    if (s.coin()) {
      navCommon(s, m, rd, false, log);
      navs++;
      continue;
    }
    reads++;
    if (s.chance(1, 4)) {
      m.swap = !m.swap;
      rd.SwapEndian(m.swap);
    }
    size_t left = m.buf.size() - m.pos;
    switch (s.upto(10)) {
    case 0: readAt<uint8>(m, rd, log, "u8"); break;
    case 1: readAt<uint16>(m, rd, log, "u16"); break;
    case 2: readAt<uint32>(m, rd, log, "u32"); break;
    case 3: readAt<uint64>(m, rd, log, "u64"); break;
    case 4: readAt<float>(m, rd, log, "f32"); break;
    case 5: {
      size_t k = s.upto(left);
      log << "skip(" << k << ") ";
      rd.Skip((int)k);
      m.pos += k;
      break;
    }
    case 6: {
      if (left < 8)
        break;
      log << "skip<u64> ";
      rd.template Skip<uint64>();
      m.pos += 8;
      break;
    }
    case 7: {
      size_t z = m.buf.find('\0', m.pos);
      if (z == string::npos)
        break;
      log << "readstring ";
      string o;
      rd.ReadString(o);
      REQUIRE_EQ(o, m.buf.substr(m.pos, z - m.pos), log.str());
      m.pos = z + 1;
      break;
    }
    case 8: {
      size_t k = s.upto(left);
      log << "readcontainer(" << k << ") ";
      string o;
      rd.ReadContainer(o, k);
      REQUIRE(o == m.buf.substr(m.pos, k), log.str());
      m.pos += k;
      break;
    }
    case 9: {
      size_t k = s.upto(left / 2);
      log << "readcontainer16(" << k << ") ";
      std::vector<uint16> o(3, 9);
      rd.ReadContainer(o, k);
      REQUIRE_EQ(o.size(), k, log.str());
      for (size_t j = 0; j < k; j++) {
        string raw = m.buf.substr(m.pos + j * 2, 2);
        if (m.swap)
          std::swap(raw[0], raw[1]);
        REQUIRE(!memcmp(&o[j], raw.data(), 2), "element " << j << log.str());
      }
      m.pos += k * 2;
      break;
    }
    case 10: {
      size_t k = s.upto(left);
      string o(k, 'x');
      rd.ReadBuffer(&o[0], k);
      REQUIRE(o == m.buf.substr(m.pos, k), "readbuffer " << log.str());
      m.pos += k;
      break;
    }
    }
    REQUIRE_EQ(rd.Tell(), m.pos - m.origin, "position: " << log.str());
    REQUIRE(!rd.IsEOF(), "EOF reported before the end " << log.str());
  }
  s.nontrivial(navs >= 2 && reads >= 2);
  s.note([&](std::ostream &o) { o << m.buf.size() << " bytes: " << log.str(); });
  if (file)
    unlink(p.c_str());
}

// 4. an unterminated string ends with the stream; open errors
PBT_TEST(ends_and_errors, 20000, 200000) {
  switch (s.upto(3)) {
  case 0: {
    string v;
    for (size_t i = 0, n = s.size(40); i < n; i++)
      v += (char)(1 + s.upto(254));
    std::istringstream is(v);
    BinReaderRef rd(is);
    string o;
    rd.ReadString(o);
    REQUIRE_EQ(o, v, "unterminated string");
    REQUIRE(rd.IsEOF(), "end of stream reported");
    s.nontrivial(!v.empty());
    s.note([&](std::ostream &os) { os << "unterminated " << pbt::esc(v); });
    break;
  }
  case 1: {
    string p = workFile("missing_") + s.ident(8);
    bool ctor = s.coin(), thrown = false;
    s.nontrivial();
    s.note([&](std::ostream &os) { os << "missing file " << p; });
    try {
      if (ctor)
        BinReader rd(p);
      else {
        BinReader rd;
        rd.Open(p.c_str());
      }
    } catch (const es::FileNotFoundError &) {
      thrown = true;
    }
    REQUIRE(thrown, "opening a missing file did not raise not-found");
    break;
  }
  case 2: {
    string p = workFile("nodir_") + s.ident(8) + "/" + s.ident(5);
    bool ctor = s.coin(), thrown = false;
    s.nontrivial();
    s.note([&](std::ostream &os) { os << "unwritable " << p; });
    try {
      if (ctor)
        BinWritter wr(p.c_str());
      else {
        BinWritter wr;
        wr.Open(p);
      }
    } catch (const es::FileInvalidAccessError &) {
      thrown = true;
    }
    REQUIRE(thrown, "opening an unwritable file did not raise an error");
    break;
  }
  case 3: { // count types: every count the type can hold
    size_t n = s.pick({0, 1, 127, 128, 200, 255});
    bool sw = s.coin();
    Item it = container<uint16, uint8>(s, sw, 1, n, "u16");
    std::stringstream ss;
    BinWritterRef wr(ss);
    wr.SwapEndian(sw);
    it.write(wr);
    REQUIRE(ss.str() == it.bytes, "count bytes " << n);
    BinReaderRef rd(ss);
    rd.SwapEndian(sw);
    it.readCheck(rd);
    s.nontrivial(n > 127);
    break;
  }
  }
}

// Items of more bytes than small counters hold.
template <class T, class Cnt> static void large(Src &s, size_t most) {
  static const size_t at[] = {127, 128, 255, 256, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 131072};
  size_t n = s.coin() ? s.pick(at) / (s.coin() ? 1 : sizeof(T)) + s.upto(2) : s.range(1, 70000);
  n = std::min(std::max<size_t>(n, 1), most);
  bool sw = s.coin();
  int mode = (int)s.upto(3);
  std::vector<T> v(n);
  uint64_t seq = s.bits(32);
  string want;
  std::stringstream st;
  BinWritterRef wr(st);
  BinReaderRef rd(st);
  wr.SwapEndian(sw), rd.SwapEndian(sw);
  if (mode == 1 || mode == 2) encCount<Cnt>(want, n, sw);
  for (auto &x : v) {
    seq = seq * 6364136223846793005ull + 1442695040888963407ull;
    x = (T)(seq >> 33 | 1);
    want += rawBytes(x, sw);
  }
  std::basic_string<T> str(v.begin(), v.end());
  switch (mode) {
  case 0: wr.WriteContainer(v); break;
  case 1: wr.template WriteContainerWCount<Cnt>(v); break;
  case 2: wr.template WriteContainerLambda<Cnt>(v, [](BinWritterRef w, const T &e) { w.Write(e); }); break;
  default: wr.WriteContainer(str);
  }
  size_t end = want.size();
  wr.Write<uint8>(0x5a), want += 'Z';
  REQUIRE_EQ(wr.Tell(), want.size(), "place after " << n << " items of " << sizeof(T) << " in mode " << mode);
  string got = st.str();
  REQUIRE(got == want, n << " items of " << sizeof(T) << " bytes written in mode " << mode << (sw ? ", swapped" : "") << ": " << got.size() << " bytes, not " << want.size());
  std::vector<T> o;
  std::basic_string<T> os;
  switch (mode) {
  case 0: rd.ReadContainer(o, n); break;
  case 1: rd.template ReadContainer<Cnt>(o); break;
  case 2: rd.template ReadContainerLambda<Cnt>(o, [](BinReaderRef r, T &e) { r.Read(e); }); break;
  default: rd.ReadContainer(os, n), o.assign(os.begin(), os.end());
  }
  REQUIRE_EQ(rd.Tell(), end, "place after reading " << n << " items of " << sizeof(T) << " in mode " << mode);
  REQUIRE(o == v, n << " items of " << sizeof(T) << " bytes read in mode " << mode << (sw ? ", swapped" : ""));
  s.nontrivial(n * sizeof(T) > 255);
  if (n * sizeof(T) > 65535) s.label("more than 64 KB");
  s.note([&](std::ostream &q) { q << n << " items of " << sizeof(T) << " bytes, mode " << mode << ", swapped " << sw; });
}
template <class T, size_t N> static void fixedArray(Src &s) {
  static T v[N], o[N];
  bool sw = s.coin();
  string want;
  T x = (T)s.bits(sizeof(T) * 8), d = (T)s.bits(sizeof(T) * 8);
  for (size_t i = 0; i < N; i++) v[i] = x, x = (T)(x * 5 + d), want += rawBytes(v[i], sw);
  std::stringstream st;
  BinWritterRef wr(st);
  wr.SwapEndian(sw);
  wr.Write(v);
  wr.Write<uint8>(7);
  want += '\7';
  REQUIRE(st.str() == want, "array of " << N << " items of " << sizeof(T) << " bytes" << (sw ? ", swapped" : "") << ": " << st.str().size() << " bytes, not " << want.size() << ", or others");
  BinReaderRef rd(st);
  rd.SwapEndian(sw);
  rd.Read(o);
  REQUIRE(!memcmp(o, v, sizeof v) && rd.Tell() == sizeof v, "array of " << N << " items of " << sizeof(T) << " bytes read back" << (sw ? ", swapped" : ""));
  s.nontrivial(sw);
}
PBT_TEST(large_items, 1500, 30000) {
  switch (s.upto(6)) {
  case 6:
    switch (s.upto(5)) {
    case 0: return fixedArray<uint16, 256>(s);
    case 1: return fixedArray<uint32, 300>(s);
    case 2: return fixedArray<uint64, 129>(s);
    case 3: return fixedArray<uint16, 66000>(s);
    case 4: return fixedArray<uint64, 9001>(s);
    default: return fixedArray<uint32, 16385>(s);
    }
  case 0: return large<char, uint32>(s, 1u << 20);
  case 1: return large<uint16, buint128>(s, 1u << 20);
  case 2: return large<uint32, uint64>(s, 1u << 20);
  case 3: return large<uint64, uint16>(s, 65535);
  case 4: return large<char, buint128>(s, 1u << 20);
  default: {
    size_t n = s.coin() ? s.range(16380, 16390) : s.range(1, 70000);
    bool sw = s.coin();
    std::wstring v(n, L'x');
    for (size_t i = 0; i < n; i += 1 + s.upto(n / 4)) v[i] = (wchar_t)(1 + s.bits(20));
    string want, narrow(n, 'y');
    for (auto c : v) want += rawBytes(c, sw);
    want += rawBytes<wchar_t>(0, false) + narrow + '\0';
    std::stringstream st;
    BinWritterRef wr(st);
    wr.SwapEndian(sw);
    wr.WriteT(es::wstring_view(v)), wr.WriteT(es::string_view(narrow));
    REQUIRE(st.str() == want, "strings of " << n << " characters: " << st.str().size() << " bytes, not " << want.size());
    BinReaderRef rd(st);
    rd.SwapEndian(sw);
    std::wstring o;
    rd.ReadContainer(o, n);
    rd.Skip(sizeof(wchar_t));
    string p;
    rd.ReadString(p);
    REQUIRE(o == v && p == narrow, "strings of " << n << " characters read back");
    s.nontrivial();
  }
  }
}

// A stream far larger than memory: what was written is kept, every other byte follows from its place.
struct Sparse : std::streambuf {
  std::map<uint64_t, char> put;
  uint64_t size = 0, at = 0;
  char byte(uint64_t p) const {
    auto f = put.find(p);
    return f != put.end() ? f->second : (char)((p * 0x9e3779b97f4a7c15ull) >> 56);
  }
  int_type underflow() override { return at < size ? traits_type::to_int_type(byte(at)) : traits_type::eof(); }
  int_type uflow() override { return at < size ? traits_type::to_int_type(byte(at++)) : traits_type::eof(); }
  std::streamsize xsgetn(char *d, std::streamsize n) override {
    std::streamsize k = 0;
    for (; k < n && at < size; k++) d[k] = byte(at++);
    return k;
  }
  void one(char c) { put[at++] = c, size = std::max(size, at); }
  int_type overflow(int_type c) override {
    if (c != traits_type::eof()) one((char)c);
    return 0;
  }
  std::streamsize xsputn(const char *d, std::streamsize n) override {
    for (std::streamsize k = 0; k < n; k++) one(d[k]);
    return n;
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode) override {
    int64_t to = (w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? (int64_t)at : (int64_t)size) + o;
    if (to < 0 || (uint64_t)to > size) return pos_type(off_type(-1));
    return pos_type(off_type(at = to));
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
template <class St> static void farHistory(Src &s, Sparse &buf, St &st, bool writer, std::ostringstream &log) {
  uint64_t pos = 0, origin = 0, saved = 0, size = buf.size;
  auto place = [&] { // near the ends of the widths a position may be cut to
    uint64_t p = s.coin() ? s.upto(size) : ((uint64_t)1 << s.range(8, 39)) + s.irange(-9, 9);
    return std::min(p, size);
  };
  bool sw = false;
  for (size_t i = 0, n = s.range(2, 24); i < n; i++) {
    switch (s.upto(11)) {
    case 0:
    case 1: {
      uint64_t to = std::max(place(), origin);
      log << "seek(" << to - origin << ") ", st.Seek(to - origin), pos = to;
      break;
    }
    case 2: {
      uint64_t to = place();
      log << "seek(" << (int64_t)(to - pos) << ",cur) ", st.Seek(to - pos, std::ios_base::cur), pos = to;
      break;
    }
    case 3: {
      uint64_t to = place();
      log << "seek(-" << size - to << ",end) ", st.Seek(to - size, std::ios_base::end), pos = to;
      break;
    }
    case 4: {
      log << "push ", saved = pos;
      size_t r = st.Push();
      REQUIRE(origin || r == pos, "push at " << pos << " gives " << r);
      break;
    }
    case 5: log << "pop ", st.Pop(), pos = saved; break;
    case 6: {
      uint64_t o = place();
      bool use = s.coin();
      log << "origin(" << o << "," << use << ") ", st.SetRelativeOrigin(o, use), origin = o;
      if (use) pos = o;
      break;
    }
    case 7: log << "resetorigin ", st.ResetRelativeOrigin(false), origin = 0; break;
    case 8: {
      int al = 1 << s.upto(8);
      uint64_t add = (al - ((pos - origin) & (al - 1))) & (al - 1);
      if (pos + add > size) break;
      log << "pad(" << al << ") ", st.ApplyPadding(al), pos += add;
      break;
    }
    case 9: {
      int64_t d = s.coin() ? -(int64_t)s.upto(std::min<uint64_t>(pos, 0x7fffffff)) : 0;
      if (!writer && s.coin()) d = s.upto(std::min<uint64_t>(size - pos, 0x7fffffff));
      log << "skip(" << d << ") ", st.Skip((int)d), pos += d;
      break;
    }
    case 10: log << "size "; REQUIRE_EQ(st.GetSize(), size - origin, "size: " << log.str()); break;
    default: log << (sw ? "unswap " : "swap "), sw = !sw, st.SwapEndian(sw);
    }
    REQUIRE_EQ(st.Tell(), (size_t)(pos - origin), "position after " << log.str());
    REQUIRE_EQ(buf.at, pos, "place in the stream after " << log.str());
  }
}
PBT_TEST(far_places, 30000, 600000) {
  Sparse buf;
  buf.size = ((uint64_t)1 << s.range(24, 40)) + s.upto(100);
  const uint64_t size = buf.size;
  std::iostream st(&buf);
  std::ostringstream log;
  log << "stream of " << size << " bytes: ";
  bool writer = s.coin();
  if (writer) {
    BinWritterRef wr(st);
    farHistory(s, buf, wr, true, log);
    for (auto &b : buf.put) REQUIRE(b.second == 0, "padding wrote " << (int)b.second << " at " << b.first << ": " << log.str());
    uint64_t at = buf.at;
    bool sw = wr.SwappedEndian();
    uint64 v = s.bits(64);
    wr.Write(v);
    string w = rawBytes(v, sw);
    for (int i = 0; i < 8; i++) REQUIRE(buf.byte(at + i) == w[i], "byte " << i << " written at " << at << ": " << log.str());
  } else {
    BinReaderRef rd(st);
    farHistory(s, buf, rd, false, log);
    uint64_t at = buf.at;
    if (at + 8 <= size) {
      uint64 v;
      rd.Read(v);
      string w = rawBytes(v, rd.SwappedEndian());
      for (int i = 0; i < 8; i++) REQUIRE(buf.byte(at + i) == w[i], "byte " << i << " read at " << at << ": " << log.str());
    }
  }
  s.nontrivial(size >> 32 && log.str().size() > 80);
  s.note([&](std::ostream &o) { o << log.str(); });
}

// Readers and writers that are moved (or copied, for views of streams) go on where the first one was.
template <class T> static std::unique_ptr<T> relocate(Src &s, std::unique_ptr<T> from) {
  std::unique_ptr<T> to;
  if (s.coin()) {
    std::vector<T> v; // growing moves the ones inside
    v.emplace_back(std::move(*from));
    from.reset();
    for (size_t i = 0, k = s.upto(3); i < k; i++) v.emplace_back();
    to.reset(new T(std::move(v[0])));
  } else {
    to.reset(new T(std::move(*from)));
    if (s.coin()) from.reset();
  }
  return to;
}
PBT_TEST(moved, 4000, 60000) {
  size_t n = s.range(2, 8), moveAt = s.chance(1, 4) ? 0 : s.upto(n), again = s.upto(n), markAt = s.upto(n);
  std::vector<Item> items;
  std::vector<size_t> starts;
  string expect;
  bool sw = s.coin();
  for (size_t i = 0; i < n; i++) items.push_back(anyItem(s, sw)), starts.push_back(expect.size()), expect += items.back().bytes;
  starts.push_back(expect.size());
  string p = workFile("moved.bin");
  bool retry = s.chance(1, 4), origin = s.coin();
  s.nontrivial(expect.size() > 8);
  s.note([&](std::ostream &o) {
    o << n << " items, moved before " << moveAt << " and " << again << ", swapped " << sw << ", marked at " << markAt << ":";
    for (auto &i : items) o << ' ' << i.name;
  });
  {
    std::unique_ptr<BinWritter> wr(new BinWritter());
    if (retry) {
      try { wr->Open(workFile("none/none")); REQUIRE(false, "opened a file in a missing folder"); } catch (const es::FileInvalidAccessError &) {}
      REQUIRE(!wr->IsValid(), "valid after a failure");
    }
    wr->Open(p);
    wr->SwapEndian(sw);
    for (size_t i = 0; i <= n; i++) {
      if (i == markAt) REQUIRE_EQ(wr->Push(), starts[i], "remembered place");
      if (i == moveAt || i == again) {
        wr = relocate(s, std::move(wr));
        REQUIRE(wr->IsValid(), "a moved writer is not valid");
        REQUIRE_EQ(wr->SwappedEndian(), sw, "byte order of a moved writer");
        REQUIRE_EQ(wr->Tell(), starts[i], "place of a moved writer");
      }
      if (i < n) items[i].write(*wr);
    }
    wr->Pop();
    REQUIRE_EQ(wr->Tell(), starts[markAt], "place remembered before a writer was moved");
  }
  REQUIRE(slurp(p) == expect, "file written by a moved writer differs");
  {
    std::unique_ptr<BinReader> rd(new BinReader());
    if (retry) {
      try { rd->Open(workFile("none")); REQUIRE(false, "opened a missing file"); } catch (const es::FileNotFoundError &) {}
      REQUIRE(!rd->IsValid(), "valid after a failure");
    }
    rd->Open(p.c_str());
    rd->SwapEndian(sw);
    size_t base = 0;
    for (size_t i = 0; i <= n; i++) {
      if (i == markAt) REQUIRE_EQ(rd->Push(), starts[i], "remembered place");
      if (i == moveAt && origin) rd->SetRelativeOrigin(base = starts[i], false);
      if (i == moveAt || i == again) {
        rd = relocate(s, std::move(rd));
        REQUIRE(rd->IsValid(), "a moved reader is not valid");
        REQUIRE_EQ(rd->SwappedEndian(), sw, "byte order of a moved reader");
        REQUIRE_EQ(rd->Tell(), starts[i] - base, "place of a moved reader");
        REQUIRE_EQ(rd->GetSize(), expect.size() - base, "size of a moved reader");
        BinReaderRef ref(*rd), copy(ref); // views of the same stream
        REQUIRE_EQ(copy.Tell(), starts[i] - base, "place of a copied reader");
        REQUIRE_EQ(copy.SwappedEndian(), sw, "byte order of a copied reader");
      }
      if (i < n) items[i].readCheck(*rd);
    }
    rd->Pop();
    REQUIRE_EQ(rd->Tell(), starts[markAt] - base, "place remembered before a reader was moved");
  }
  unlink(p.c_str());
}
