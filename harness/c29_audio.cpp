// C29: audio container headers.
#include "pbt.hpp"
#include "formats/WAVE.hpp"
#include "formats/FWSE.hpp"
#include "formats/MSF.hpp"
#include "formats/VAG.hpp"
#include "formats/XVAG.hpp"
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#include <memory>
#include <sstream>
#include <sys/mman.h>
using pbt::Src;
using std::string;

static void put(string &o, uint64_t v, int n = 4) { for (int i = 0; i < n; i++) o += (char)(v >> 8 * i); }
static uint32_t get(const string &d, size_t at) { uint32_t v = 0; for (int i = 0; i < 4; i++) v |= (uint32_t)(uint8_t)d[at + i] << 8 * i; return v; }
static unsigned num(Src &s) { return s.coin() ? s.upto(300) : (unsigned)s.bits(32); }

struct FmtRef { WAVE_FORMAT f; unsigned id, bits; };
static const FmtRef FORMATS[] = {{WAVE_FORMAT::PCM, 1, 16}, {WAVE_FORMAT::MS_ADPCM, 2, 4}, {WAVE_FORMAT::ALAW, 6, 8}, {WAVE_FORMAT::MULAW, 7, 8}, {WAVE_FORMAT::IMA_ADPCM, 0x11, 4}, {WAVE_FORMAT::GSM610, 0x31, 0}, {WAVE_FORMAT::MPEG, 0x50, 0}, {WAVE_FORMAT::UNKNOWN, 0, 0}};

PBT_TEST(build, 30000, 1000000) {
  const FmtRef &f = s.pick(FORMATS);
  uint32_t dataSize = s.upto(400);
  WAVE_fmt fmt(f.f);
  bool defaults = s.chance(1, 8), calc = !defaults && s.coin();
  uint16_t ch = 1;
  uint32_t rate = 0, bytes = 0;
  uint16_t align = 0;
  unsigned bits = f.bits;
  if (!defaults) {
    ch = 1 + s.upto(s.coin() ? 7 : 254), rate = s.coin() ? s.pick({8000, 11025, 22050, 44100, 48000, 96000, 192000}) : 1 + s.upto(400000);
    if (f.f == WAVE_FORMAT::PCM && s.coin()) bits = 8 * (1 + s.upto(3));
    if (s.chance(1, 6)) ch = (uint16_t)s.range(250, bits > 8 ? 65535 / (bits / 8) : 65535); // as many as the fields hold
    if (bits >= 8) rate = std::min<uint64_t>(rate, 0xffffffffu / ((uint64_t)ch * (bits / 8)));
    fmt.channels = ch, fmt.sampleRate = rate, fmt.bitsPerSample = bits;
    if (calc && bits % 8 == 0) {
      fmt.CalcData();
      if (s.chance(1, 4)) fmt.CalcData();
      align = ch * (bits / 8), bytes = rate * align;
      if (ch > 1) s.nontrivial();
    } else
      fmt.interleave = align = (uint16_t)s.bits(16), fmt.sampleCount = bytes = num(s);
  }
  string e("RIFF");
  put(e, 4 + 24 + 8 + dataSize), e += "WAVEfmt ";
  put(e, 16), put(e, f.id, 2), put(e, ch, 2), put(e, rate), put(e, bytes), put(e, align, 2), put(e, bits, 2), e += "data", put(e, dataSize);
  std::stringstream st;
  BinWritterRef wr(st);
  RIFFHeader riff(12 + 24 + 8 + dataSize);
  WAVE_data data(dataSize);
  wr.Write(riff), wr.Write(fmt), wr.Write(data);
  string got = st.str();
  REQUIRE_EQ(got.size(), e.size(), "size of the written headers");
  for (size_t i = 0; i < e.size(); i++) REQUIRE(got[i] == e[i], "byte " << i << " of the headers is " << (int)(uint8_t)got[i] << ", not " << (int)(uint8_t)e[i] << " (format " << f.id << ", " << ch << " channels, rate " << rate << ')');
  BinReaderRef rd(st);
  RIFFHeader r2(8);
  WAVE_fmt f2(WAVE_FORMAT::UNKNOWN);
  WAVE_data d2(0);
  rd.Read(r2), rd.Read(f2), rd.Read(d2);
  REQUIRE(r2.id == RIFFHeader::ID && r2.chunkSize == riff.chunkSize && r2.type == riff.type, "RIFF header read back");
  REQUIRE(f2.id == WAVE_fmt::ID && f2.chunkSize == 16 && f2.format == f.f && f2.channels == ch && f2.sampleRate == rate && f2.sampleCount == bytes && f2.interleave == align && f2.bitsPerSample == bits, "format read back");
  REQUIRE(d2.id == WAVE_data::ID && d2.chunkSize == dataSize, "data header read back");
}

// sizes no test file has
PBT_TEST(sizes, 20000, 400000) {
  uint32_t full = 8 + (uint32_t)(s.coin() ? s.upto(0xfffffff7u) : s.pick({0u, 1u, 0x7ffffff7u, 0x7ffffff8u, 0x7ffffff9u, 0xfffffff7u})), data = (uint32_t)s.bits(32);
  RIFFHeader r(full);
  REQUIRE(r.id == RIFFHeader::ID && r.chunkSize == full - 8, "a file of " << full << " bytes holds " << r.chunkSize);
  WAVE_data d(data);
  REQUIRE(d.id == WAVE_data::ID && d.chunkSize == data, data << " bytes of data are written as " << d.chunkSize);
  WAVEGenericHeader g((uint32_t)s.bits(32), data);
  REQUIRE_EQ(g.chunkSize, data, "size of a chunk");
  uint32_t id = (uint32_t)s.bits(32);
  WAVEGenericHeader u(id);
  REQUIRE(u.id == id && u.chunkSize == 0, "chunk without a size");
  // what is known does not depend on the sizes
  static const char *const ids[] = {"fmt ", "data", "fact", "smpl"};
  const char *k = s.pick(ids);
  WAVEGenericHeader w((uint32_t)(uint8_t)k[0] | (uint32_t)(uint8_t)k[1] << 8 | (uint32_t)(uint8_t)k[2] << 16 | (uint32_t)(uint8_t)k[3] << 24, data);
  REQUIRE(IsValidWaveChunk(w), "chunk " << k << " of " << data << " bytes");
  s.nontrivial(full > 44);
  s.note([&](std::ostream &os) { os << full << " bytes, " << data << " of data"; });
}

// chunks of any size: addresses only, nothing but the pages of the two heads exists
PBT_TEST(large_chunks, 4000, 60000) {
  const size_t page = 4096, room = ((size_t)1 << 32) + 16 * page;
  static char *const mem = [&] { void *m = mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return m == MAP_FAILED ? nullptr : (char *)m; }();
  if (!mem) return;
  uint32_t size;
  switch (s.upto(3)) {
  case 0: size = (uint32_t)s.bits(32); break;
  case 1: size = (uint32_t)s.bits(1 + s.upto(31)); break;
  case 2: size = ((uint32_t)1 << s.upto(31)) + s.irange(-3, 3); break;
  default: size = 0xffffffffu - s.upto(9);
  }
  const size_t at = s.upto(1) * 12, want = at + 8 + (size_t)size + (size & 1);
  auto *h = new (mem + at) WAVEGenericHeader(CompileFourCC("LIST"), size);
  char *next = (char *)h->Next();
  REQUIRE(next == mem + want, "after a chunk of " << size << " bytes at " << at << " the next one is at " << (next - mem) << ", not " << want);
  auto drop = [&](size_t a) { madvise(mem + a / page * page, 2 * page, MADV_DONTNEED); };
  drop(at);
  s.nontrivial(size > 400);
  if (size > 0xffff && (size & 1)) s.label("large and odd");
  s.note([&](std::ostream &os) { os << "chunk of " << size << " bytes"; });
}

struct Chunk { string id, body; size_t at; };
PBT_TEST(walk, 30000, 1000000) {
  std::vector<Chunk> cs;
  size_t n = s.size(8);
  string file("RIFF....WAVE");
  for (size_t i = 0; i < n; i++) {
    Chunk c;
    c.at = file.size();
    switch (s.upto(5)) {
    case 0: c.id = "fmt ", put(c.body, 1, 2), put(c.body, s.upto(7), 2), put(c.body, num(s)), put(c.body, num(s)), put(c.body, s.bits(16), 2), put(c.body, s.bits(16), 2);
      if (s.chance(1, 3)) put(c.body, s.bits(16), 2), c.body += s.bytes(2); // extended
      break;
    case 1: c.id = "data", c.body = s.bytes(s.upto(12) * 4 + s.pick({0, 3})); break;
    case 2: c.id = "fact", put(c.body, num(s)); break;
    case 3: {
      c.id = "smpl";
      unsigned loops = s.upto(3);
      for (int j = 0; j < 7; j++) put(c.body, num(s));
      put(c.body, loops), put(c.body, 0);
      for (unsigned j = 0; j < loops; j++) { put(c.body, j), put(c.body, s.upto(2)); for (int k = 0; k < 4; k++) put(c.body, num(s)); }
      break;
    }
    default: c.id = s.coin() ? "LIST" : s.pick({"cue ", "Fmt ", "dat ", "FACT", "JUNK", "smpL", "RIFF", "WAVE"}), c.body = s.bytes(s.upto(6) * 4 + s.pick({0, 3}));
    }
    file += c.id, put(file, c.body.size()), file += c.body;
    if (c.body.size() & 1) file += '\0', s.label("padded");
    cs.push_back(c);
  }
  if (n > 1) s.nontrivial();
  string sz;
  put(sz, file.size() - 8);
  file.replace(4, 4, sz);
  std::vector<uint32_t> mem((file.size() + 3) / 4);
  memcpy(mem.data(), file.data(), file.size());
  char *base = (char *)mem.data(), *end = base + file.size();
  auto *riff = reinterpret_cast<RIFFHeader *>(base);
  REQUIRE(riff->id == RIFFHeader::ID && riff->type == CompileFourCC("WAVE") && riff->chunkSize == file.size() - 8, "RIFF header");
  auto *h = reinterpret_cast<WAVEGenericHeader *>(riff + 1);
  size_t at = 0;
  while ((char *)h < end) {
    REQUIRE(at < n, "walk went past " << n << " chunks");
    const Chunk &c = cs[at];
    REQUIRE_EQ((size_t)((char *)h - base), c.at, "position of chunk " << at << " after " << (at ? cs[at - 1].id + " of " + std::to_string(cs[at - 1].body.size()) : "header"));
    REQUIRE(h->id == get(c.id, 0) && h->chunkSize == c.body.size(), "head of chunk " << at);
    bool known = c.id == "fmt " || c.id == "data" || c.id == "fact" || c.id == "smpl";
    REQUIRE_EQ(IsValidWaveChunk(*h), known, "chunk " << c.id << " recognised");
    if (c.id == "data") {
      auto *d = static_cast<WAVE_data *>(h);
      REQUIRE_EQ((size_t)(d->GetData() - base), c.at + 8, "data of a chunk");
    } else if (c.id == "fmt ") {
      auto *d = static_cast<WAVE_fmt *>(h);
      REQUIRE((int)d->format == 1 && d->channels == (uint8_t)c.body[2] && d->sampleRate == get(c.body, 4) && d->sampleCount == get(c.body, 8) && d->interleave == (get(c.body, 12) & 0xffff) && d->bitsPerSample == get(c.body, 12) >> 16, "format chunk");
      if (c.body.size() == 20) {
        auto *e = static_cast<WAVE_fmt_MSADPCM *>(d);
        REQUIRE(e->extendedDataSize == (get(c.body, 16) & 0xffff) && !memcmp(e->extendedData, c.body.data() + 18, 2) && sizeof e->extendedData == 2, "extended format chunk");
      }
    } else if (c.id == "fact") {
      REQUIRE_EQ(static_cast<WAVE_fact *>(h)->uncompressedSize, get(c.body, 0), "fact chunk");
    } else if (c.id == "smpl") {
      auto *d = static_cast<WAVE_smpl *>(h);
      const uint32_t v[] = {d->manufacturer, d->product, d->samplePeriod, d->MIDIUnityNote, d->MIDIPitchFraction, d->SMPTEFormat, d->SMPTEOffset, d->numSampleLoops, d->sampleLoopsSize};
      for (int i = 0; i < 9; i++) REQUIRE_EQ(v[i], get(c.body, 4 * i), "field " << i << " of a sampler chunk");
      for (unsigned i = 0; i < d->numSampleLoops; i++) {
        auto &l = d->GetSampleLoops()[i];
        const uint32_t w[] = {l.id, (uint32_t)l.type, l.start, l.end, l.fraction, l.playCount};
        for (int k = 0; k < 6; k++) REQUIRE_EQ(w[k], get(c.body, 36 + 24 * i + 4 * k), "field " << k << " of sample loop " << i);
      }
    }
    h = h->Next();
    at++;
  }
  REQUIRE_EQ(at, n, "chunks visited");
  REQUIRE(n == 0 || (char *)h == end, "walk ended " << ((char *)h - end) << " bytes after the end");
}

template <class T> static T readAs(const string &d) {
  std::istringstream st(d);
  BinReaderRef rd(st);
  T t;
  rd.Read(t);
  REQUIRE_EQ((size_t)st.tellg(), d.size(), "bytes read");
  return t;
}
PBT_TEST(others, 30000, 600000) {
  s.nontrivial();
  auto fill = [&](size_t n, const char *id) { string d(id); while (d.size() < n) put(d, d.size() < 48 || n < 100 ? num(s) : d.size()); return d; };
  auto eq = [&](const string &d, size_t at, auto v, const char *what) { REQUIRE_EQ((int64_t)v, (int64_t)get(d, at), what << " at offset " << at); };
  switch (s.upto(4)) {
  case 0: {
    string d = fill(0x400, "FWSE");
    auto h = std::make_unique<FWSE>(readAs<FWSE>(d));
    REQUIRE(h->id == FWSE::ID, "FWSE not recognised");
    eq(d, 4, h->version, "FWSE version"), eq(d, 8, h->fileSize, "FWSE file size"), eq(d, 12, h->bufferOffset, "FWSE buffer offset"), eq(d, 16, h->numChannels, "FWSE channels");
    eq(d, 20, h->numSamples, "FWSE samples"), eq(d, 24, h->sampleRate, "FWSE rate"), eq(d, 28, h->sampleDepth, "FWSE depth");
    std::ostringstream o;
    BinWritterRef wr(o);
    wr.Write(*h);
    REQUIRE(o.str() == d, "FWSE written back differs");
    break;
  }
  case 1: {
    string d = fill(0x40, "MSFC");
    MSF h = readAs<MSF>(d);
    eq(d, 0, h.id, "MSF id"), eq(d, 4, (uint32_t)h.codec, "MSF codec"), eq(d, 8, h.numChannels, "MSF channels"), eq(d, 12, h.dataSize, "MSF data size"), eq(d, 16, h.sampleRate, "MSF rate");
    eq(d, 20, h.flags, "MSF flags"), eq(d, 24, h.loopStart, "MSF loop start"), eq(d, 28, h.loopDuration, "MSF loop duration");
    const MSF::CodecType c[] = {MSF::PCM16BE, MSF::PCM16LE, MSF::PCM32F, MSF::PSX_ADPCM, MSF::AT3L, MSF::AT3M, MSF::AT3H, MSF::LAME};
    for (int i = 0; i < 8; i++) REQUIRE_EQ((int)c[i], i, "number of an MSF codec");
    break;
  }
  case 2: {
    string d = fill(0x40, "VAGp");
    VAG h = readAs<VAG>(d);
    REQUIRE(h.id == VAGID, "VAG not recognised");
    eq(d, 4, h.version, "VAG version"), eq(d, 12, h.dataSize, "VAG data size"), eq(d, 16, h.sampleRate, "VAG rate");
    break;
  }
  case 3: {
    string d = fill(32, "XVAG");
    auto h = readAs<XVAGHeader>(d);
    REQUIRE(h.id == XVAGID, "XVAG not recognised");
    eq(d, 4, h.size, "XVAG size");
    REQUIRE(h.numBlocks == (uint8_t)d[8] && h.flags == (uint8_t)d[9], "XVAG blocks and flags");
    break;
  }
  default: {
    string d = fill(36, "fmat");
    auto h = readAs<XVAGfmat>(d);
    REQUIRE(h.id == XVAGFMAT, "XVAG format not recognised");
    eq(d, 4, h.size, "fmat size"), eq(d, 8, h.numChannels, "fmat channels"), eq(d, 12, (uint32_t)h.format, "fmat format"), eq(d, 16, h.numSamples, "fmat samples"), eq(d, 20, h.numSamples2, "fmat samples");
    eq(d, 24, h.interleave, "fmat interleave"), eq(d, 28, h.sampleRate, "fmat rate"), eq(d, 32, h.bufferSize, "fmat buffer size");
    REQUIRE((int)XVAGFormat::PS_ADPCM == 6 && (int)XVAGFormat::PS_ADPCM_EX == 7 && (int)XVAGFormat::MPEG == 8 && (int)XVAGFormat::AT9 == 9, "numbers of XVAG formats");
  }
  }
}
