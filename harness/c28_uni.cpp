// C28: render model, motion and skeleton interfaces.
#include "pbt.hpp"
#include "uni/model.hpp"
#include "uni/motion.hpp"
#include "uni/skeleton.hpp"
#include "uni/rts.hpp"
#include "datas/matrix44.hpp"
#include "uni/list_vector.hpp"
#include <cmath>
#include <stdexcept>
using namespace uni;
using pbt::Src;
using PD = PrimitiveDescriptor;

static int live;
struct Counted { Counted() { live++; } Counted(const Counted &) { live++; } ~Counted() { live--; } };

//---------------------------------------------------------------- resampling
struct Fmt { FormatType f; DataType t; const char *name; int n, bytes; };
static const std::vector<Fmt> FMTS{
    {FormatType::FLOAT, DataType::R32G32B32A32, "4 floats", 4, 4}, {FormatType::FLOAT, DataType::R32G32B32, "3 floats", 3, 4}, {FormatType::FLOAT, DataType::R32G32, "2 floats", 2, 4},
    {FormatType::FLOAT, DataType::R32, "1 float", 1, 4}, {FormatType::UNORM, DataType::R8G8B8A8, "4 unorm8", 4, 1}, {FormatType::NORM, DataType::R8G8B8A8, "4 norm8", 4, 1},
    {FormatType::UNORM, DataType::R16G16, "2 unorm16", 2, 2}, {FormatType::NORM, DataType::R16G16B16A16, "4 norm16", 4, 2}, {FormatType::NORM, DataType::R16G16B16, "3 norm16", 3, 2}, {FormatType::UNORM, DataType::R8, "1 unorm8", 1, 1}};
static double decode(const Fmt &f, const char *p, int i) {
  p += i * f.bytes;
  if (f.bytes == 4) { float v; memcpy(&v, p, 4); return v; }
  if (f.bytes == 2) { int16_t v; memcpy(&v, p, 2); return f.f == FormatType::NORM ? v / 32767.0 : (uint16_t)v / 65535.0; }
  return f.f == FormatType::NORM ? (int8_t)*p / 127.0 : (uint8_t)*p / 255.0;
}
static float num(Src &s) {
  switch (s.upto(5)) {
  case 0: return 0;
  case 1: return 1;
  case 2: return (float)s.irange(-20, 20);
  case 3: return (float)s.irange(-1000000, 1000000) / 1024;
  case 4: return (float)s.irange(-1000, 1000) * 1e-6f;
  default: return (float)s.irange(-100, 100) * 1e6f;
  }
}
struct Desc : PD {
  const char *buf = nullptr;
  size_t stride = 0, offset = 0, index = 0;
  const Fmt *fmt = nullptr;
  BBOX box;
  UnpackDataType_e ut = UnpackDataType_e::None;
  Usage_e usage = Usage_e::Undefined;
  const char *RawBuffer() const override { return buf + offset; }
  size_t Stride() const override { return stride; }
  size_t Offset() const override { return offset; }
  size_t Index() const override { return index; }
  Usage_e Usage() const override { return usage; }
  FormatDescr Type() const override { return {fmt->f, fmt->t}; }
  BBOX UnpackData() const override { return box; }
  UnpackDataType_e UnpackDataType() const override { return ut; }
  operator Element<const PD>() const { return {static_cast<const PD *>(this), false}; }
};
struct Prim : Primitive {
  std::vector<std::vector<char>> bufs;
  VectorList<PD, Desc> descs;
  size_t verts = 0;
  bool owned = false;
  const char *RawIndexBuffer() const override { return nullptr; }
  const char *RawVertexBuffer(size_t id) const override { return bufs.at(id).data(); }
  PrimitiveDescriptorsConst Descriptors() const override {
    if (!owned) return PrimitiveDescriptorsConst(&descs, false);
    struct Copy : VectorList<PD, Desc>, Counted {};
    auto *c = new Copy;
    c->storage = descs.storage;
    return PrimitiveDescriptorsConst(c);
  }
  IndexType_e IndexType() const override { return IndexType_e::None; }
  size_t IndexSize() const override { return 0; }
  size_t NumVertices() const override { return verts; }
  size_t NumVertexBuffers() const override { return bufs.size(); }
  size_t NumIndices() const override { return 0; }
  std::string Name() const override { return "p"; }
  size_t SkinIndex() const override { return 0; }
  size_t LODIndex() const override { return 0; }
};
PBT_TEST(resample, 25000, 1000000) {
  Prim p;
  p.owned = s.coin();
  p.verts = s.size(24);
  size_t nb = 1 + s.upto(2), nd = 1 + s.upto(5);
  std::vector<size_t> stride(nb);
  for (size_t i = 0; i < nd; i++) {
    Desc d;
    d.fmt = &s.pick(FMTS);
    d.index = s.upto(nb - 1);
    d.usage = (PD::Usage_e)s.upto(10);
    stride[d.index] += s.upto(3);
    d.offset = stride[d.index];
    stride[d.index] += d.fmt->n * d.fmt->bytes;
    d.ut = (PD::UnpackDataType_e)s.upto(3);
    for (int c = 0; c < 4; c++) d.box.min[c] = num(s), d.box.max[c] = num(s);
    p.descs.storage.push_back(d);
  }
  for (size_t b = 0; b < nb; b++) {
    stride[b] += s.upto(3);
    p.bufs.emplace_back(stride[b] * p.verts);
    for (auto &c : p.bufs[b]) c = (char)s.bits(8);
  }
  for (auto &d : p.descs.storage) {
    d.stride = stride[d.index], d.buf = p.bufs[d.index].data();
    if (d.fmt->bytes == 4)
      for (size_t v = 0; v < p.verts; v++)
        for (int c = 0; c < d.fmt->n; c++) { float f = num(s); memcpy(p.bufs[d.index].data() + d.offset + v * d.stride + c * 4, &f, 4); }
  }
  if (p.verts > 1 && nd > 1) s.nontrivial();
  const Primitive &pr = p;
  auto bufsBefore = p.bufs;
  auto list = pr.Descriptors();
  REQUIRE_EQ(list->Size(), nd, "number of descriptors");
  std::vector<size_t> order;
  for (size_t i = 0; i < nd; i++) order.insert(order.begin() + s.upto(i), i);
  for (size_t o : order) {
    auto d = list->At(o);
    const Desc &me = p.descs.storage[o];
    s.label(me.ut == PD::UnpackDataType_e::Madd ? "madd" : me.ut == PD::UnpackDataType_e::Mul ? "mul" : me.ut == PD::UnpackDataType_e::Add ? "add" : "none");
    FormatCodec::fvec out(s.coin() ? p.verts : 0);
    if (out.empty()) d->Codec().Sample(out, d->RawBuffer(), p.verts, d->Stride());
    else d->Codec().Sample(out, d->RawBuffer(), s.coin() ? p.verts : 0, d->Stride());
    REQUIRE_EQ(out.size(), p.verts, "sampled values");
    FormatCodec::fvec raw(out);
    d->Resample(out);
    REQUIRE_EQ(out.size(), p.verts, "resampled values");
    for (size_t v = 0; v < p.verts; v++) {
      Vector4A16 one;
      d->Codec().GetValue(one, d->RawBuffer() + v * d->Stride());
      for (int c = 0; c < 4; c++) {
        std::string at = "vertex " + pbt::show(v) + " component " + pbt::show(c) + " of " + me.fmt->name;
        double x = one[c], mn = me.box.min[c], mx = me.box.max[c];
        REQUIRE(raw[v][c] == one[c], "sampled alone and in an array differ: " << at);
        if (c < me.fmt->n) {
          double want = decode(*me.fmt, me.buf + me.offset + v * me.stride, c);
          REQUIRE((want < -1 && x == -1 && me.fmt->bytes < 4) || std::fabs(x - want) <= std::fabs(want) * 1e-6 + (me.fmt->bytes == 4 ? 0 : 1e-6), "value " << x << ", not " << want << ": " << at);
        }
        double want, mag;
        switch (me.ut) {
        case PD::UnpackDataType_e::Add: want = x + mn, mag = std::fabs(x) + std::fabs(mn); break;
        case PD::UnpackDataType_e::Mul: want = x * mn, mag = std::fabs(want); break;
        case PD::UnpackDataType_e::Madd: want = mx + x * mn, mag = std::fabs(mx) + std::fabs(x * mn); break;
        default: want = x, mag = 0;
        }
        REQUIRE(std::fabs(out[v][c] - want) <= mag * 1e-6, "transform " << (int)me.ut << " gives " << out[v][c] << ", not " << want << ": " << at);
      }
    }
  }
  list.reset();
  REQUIRE_EQ(live, 0, "lists alive after use");
  REQUIRE(bufsBefore == p.bufs, "vertex data changed");
}

//---------------------------------------------------------------- queries
template <class F> static int outcome(F f) { // 0 answered, 1 logic error, 2 runtime error
  try { f(); return 0; }
  catch (const std::logic_error &e) { REQUIRE(e.what()[0], "error without text"); return 1; }
  catch (const std::runtime_error &e) { REQUIRE(e.what()[0], "error without text"); return 2; }
  catch (const std::exception &e) { REQUIRE(false, "an unanswered query raised neither a logic nor a runtime error: " << e.what()); }
  catch (const pbt::Failure &) { throw; }
  catch (...) { REQUIRE(false, "an unanswered query raised something that is no std::exception"); }
  return 3;
}
struct Track : MotionTrack {
  unsigned mask = 0;
  TrackType_e type = Position;
  float k = 0;
  TrackType_e TrackType() const override { return type; }
  size_t BoneIndex() const override { return 7; }
  void GetValue(RTSValue &o, float t) const override { if (mask & 1) o.translation = Vector4A16(t * k); else MotionTrack::GetValue(o, t); }
  void GetValue(esMatrix44 &o, float t) const override { if (mask & 2) o[3] = Vector4A16(t * k); else MotionTrack::GetValue(o, t); }
  void GetValue(Vector4A16 &o, float t) const override { if (mask & 4) o = Vector4A16(t * k); else MotionTrack::GetValue(o, t); }
  void GetValue(float &o, float t) const override { if (mask & 8) o = t * k; else MotionTrack::GetValue(o, t); }
};
struct SomeBone : Bone, Counted {
  unsigned mask = 0;
  TransformType type = TMTYPE_RTS;
  const Bone *parent = nullptr;
  int id = 0;
  TransformType TMType() const override { return type; }
  void GetTM(RTSValue &o) const override { if (mask & 1) o.translation = Vector4A16((float)id); else Bone::GetTM(o); }
  void GetTM(esMatrix44 &o) const override { if (mask & 2) o[3] = Vector4A16((float)id); else Bone::GetTM(o); }
  const Bone *Parent() const override { return parent; }
  size_t Index() const override { return id; }
  std::string Name() const override { return "bone" + std::to_string(id); }
  operator Element<const Bone>() const { return {static_cast<const Bone *>(this), false}; }
};
struct SomeSkin : Skin {
  unsigned mask = 0;
  TransformType type = TMTYPE_RTS;
  size_t NumNodes() const override { return 3; }
  TransformType TMType() const override { return type; }
  void GetTM(RTSValue &o, size_t i) const override { if (mask & 1) o.translation = Vector4A16((float)i); else Skin::GetTM(o, i); }
  void GetTM(esMatrix44 &o, size_t i) const override { if (mask & 2) o[3] = Vector4A16((float)i); else Skin::GetTM(o, i); }
  size_t NodeIndex(size_t i) const override { return i; }
};
static bool all(const Vector4A16 &v, float f) { return v[0] == f && v[1] == f && v[2] == f && v[3] == f; }

// transforms are equal exactly when all their parts are
PBT_TEST(transform_values, 20000, 300000) {
  float f[12];
  for (float &v : f) v = (float)s.irange(-3, 3) / 2;
  auto vec = [&](int i) { return Vector4A16(f[i], f[i + 1], f[i + 2], f[i + 3]); };
  const RTSValue a(vec(0), vec(4), vec(8));
  REQUIRE(!memcmp(&a.translation, f, 16) && !memcmp(&a.rotation, f + 4, 16) && !memcmp(&a.scale, f + 8, 16), "parts of a transform");
  bool eq = true;
  switch (s.upto(3)) {
  case 0: break;
  case 1: { int i = (int)s.upto(11); f[i] += s.coin() ? 0.5f : -2.f, eq = false; break; }
  case 2: // a part turned around
    for (int p = (int)s.upto(2) * 4, i = p; i < p + 4; i++) eq &= f[i] == 0, f[i] = -f[i];
    break;
  default: { // two parts exchanged
    int p = (int)s.upto(2) * 4, q = (p + 4) % 12;
    for (int i = 0; i < 4; i++) eq &= f[p + i] == f[q + i], std::swap(f[p + i], f[q + i]);
  }
  }
  const RTSValue b(vec(0), vec(4), vec(8));
  REQUIRE((a == b) == eq && (b == a) == eq && (a != b) == !eq && (b != a) == !eq, "equality of transforms");
  s.nontrivial(!eq);
  s.note([&](std::ostream &o) { for (float v : f) o << v << ' '; });
}
PBT_TEST(queries, 20000, 400000) {
  unsigned kind = s.upto(2), mask = s.upto(15), q = s.upto(kind ? 1 : 3);
  bool have = mask >> q & 1, claims;
  float t = (float)s.irange(-50, 50) / 4, k = (float)s.irange(1, 9);
  {
    const RTSValue none, same(Vector4A16(0.f, 0.f, 0.f, 0.f), Vector4A16(0.f, 0.f, 0.f, 1.f), Vector4A16(1.f, 1.f, 1.f, 0.f));
    const float w[] = {0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 0};
    for (int i = 0; i < 12; i++) {
      REQUIRE_EQ((i < 4 ? none.translation : i < 8 ? none.rotation : none.scale)[i % 4], w[i], "item " << i << " of a transform that does nothing");
      RTSValue other;
      auto &at = (i < 4 ? other.translation : i < 8 ? other.rotation : other.scale)._arr[i % 4];
      at += k;
      REQUIRE(other != none && !(other == none), "transforms that differ at " << i << " by " << k);
    }
    REQUIRE(none == same && !(none != same), "transform that does nothing");
  }
  RTSValue r(Vector4A16(-3.f), Vector4A16(-4.f), Vector4A16(-5.f));
  const RTSValue r0 = r;
  esMatrix44 m; for (int i = 0; i < 4; i++) m[i] = Vector4A16(-6.f);
  Vector4A16 v(-7.f);
  float f = -8;
  int got;
  float want = 0;
  if (kind == 0) {
    Track tr;
    tr.mask = mask, tr.k = k, tr.type = (MotionTrack::TrackType_e)s.upto(5), want = t * k;
    const MotionTrack &i = tr;
    auto ty = tr.type;
    switch (q) {
    case 0: claims = ty == MotionTrack::PositionRotationScale; got = outcome([&] { i.GetValue(r, t); }); break;
    case 1: claims = ty == MotionTrack::Matrix; got = outcome([&] { i.GetValue(m, t); }); break;
    case 2: claims = ty == MotionTrack::Position || ty == MotionTrack::Rotation || ty == MotionTrack::Scale; got = outcome([&] { i.GetValue(v, t); }); break;
    default: claims = ty == MotionTrack::SingleFloat; got = outcome([&] { i.GetValue(f, t); });
    }
  } else if (kind == 1) {
    SomeBone b;
    b.mask = mask, b.type = (TransformType)s.upto(1), b.id = s.upto(100), want = (float)b.id;
    const Bone &i = b;
    if (q == 0) claims = b.type == TMTYPE_RTS, got = outcome([&] { i.GetTM(r); });
    else claims = b.type == TMTYPE_MATRIX, got = outcome([&] { i.GetTM(m); });
  } else {
    SomeSkin b;
    b.mask = mask, b.type = (TransformType)s.upto(1);
    size_t n = s.upto(100);
    want = (float)n;
    const Skin &i = b;
    if (q == 0) claims = b.type == TMTYPE_RTS, got = outcome([&] { i.GetTM(r, n); });
    else claims = b.type == TMTYPE_MATRIX, got = outcome([&] { i.GetTM(m, n); });
  }
  if (!have) s.nontrivial();
  s.label(have ? "answered" : claims ? "claimed, not supplied" : "not supplied");
  REQUIRE_EQ(got, have ? 0 : claims ? 1 : 2, "outcome (0 answered, 1 logic error, 2 runtime error) of query " << q << " of interface " << kind << (have ? ", supplied" : ", not supplied") << (claims ? ", claimed" : ""));
  bool hr = have && q == 0, hm = have && q == 1, hv = have && q == 2, hf = have && q == 3;
  REQUIRE(all(r.translation, hr ? want : -3) && r.rotation == r0.rotation && r.scale == r0.scale && (r == r0) == (!hr || want == -3) && (r != r0) == (hr && want != -3), "transform after the query");
  REQUIRE(all(m[3], hm ? want : -6) && all(m[0], -6), "matrix after the query");
  REQUIRE(all(v, hv ? want : -7) && f == (hf ? want : -8), "value after the query");
}

//---------------------------------------------------------------- walks
template <class I, class C> struct OwnList : List<I>, Counted {
  std::vector<C> v;
  bool lend = false;
  size_t Size() const override { return v.size(); }
  typename List<I>::const_type At(size_t i) const override {
    if (lend) return typename List<I>::const_type(&v.at(i), false);
    return typename List<I>::const_type(new C(v.at(i)));
  }
};
struct SomeSkeleton : Skeleton, Counted {
  OwnList<Bone, SomeBone> bones;
  bool own = false;
  std::string name;
  SkeletonBonesConst Bones() const override { return own ? SkeletonBonesConst(new OwnList<Bone, SomeBone>(bones)) : SkeletonBonesConst(&bones, false); }
  std::string Name() const override { return name; }
};
struct LiveTrack : Track, Counted { size_t bone = 0; size_t BoneIndex() const override { return bone; } };
struct SomeMotion : Motion, Counted {
  OwnList<MotionTrack, LiveTrack> tracks;
  bool own = false;
  unsigned rate = 0;
  std::string Name() const override { return "m"; }
  using Motion::FrameRate;
  uint32 FrameRate() const override { return rate; }
  float Duration() const override { return 1; }
  MotionTracksConst Tracks() const override { return own ? MotionTracksConst(new OwnList<MotionTrack, LiveTrack>(tracks)) : MotionTracksConst(&tracks, false); }
  MotionType_e MotionType() const override { return Relative; }
};
// lists longer than anything stored: elements are their places
struct Endless {
  size_t n;
  size_t Count() const { return n; }
  size_t Place(size_t i) const { return i; }
};
struct EndlessList : uni::Vector<size_t> {
  size_t n = 0;
  size_t Size() const override { return n; }
  const size_t At(size_t i) const override { return i; }
};
template <class I, class L> static void places(Src &s, const L &l, size_t n, const char *what) {
  size_t from = s.chance(1, 3) ? n - std::min<size_t>(n, s.upto(40)) : s.coin() ? s.upto(n) : s.pick({0x7fu, 0xffu, 0x100u, 0xffffu, 0x10000u, 0x7fffffffu, 0x80000000u}) + s.upto(2);
  from = std::min(from, n);
  I i(&l, from), end(&l), last(&l, n);
  REQUIRE(end == last && !(end != last) && (i == end) == (from == n), what << ": place " << from << " of " << n);
  for (size_t at = from, stop = from + s.upto(60); at < stop; at++) {
    REQUIRE((i == end) == (at == n) && (i != end) == (at != n), what << " made for " << from << " of " << n << " at its end at " << at);
    if (at == n) break;
    REQUIRE_EQ((size_t)*i, at, what << " made for " << from << " of " << n);
    if (s.coin()) ++i;
    else REQUIRE_EQ((size_t)*i++, at, what << " before its increment, made for " << from << " of " << n);
  }
  s.nontrivial(from > 1000);
}
PBT_TEST(long_lists, 20000, 400000) {
  size_t n = s.chance(1, 3) ? s.upto(0xfffffffeu) : s.coin() ? ((size_t)1 << s.upto(31)) + s.upto(3) : s.upto(300);
  n = std::min<size_t>(n, 0xfffffffe);
  s.note([&](std::ostream &o) { o << n << " elements"; });
  if (s.coin()) {
    Endless e{n};
    places<uni::VirtualIterator<Endless, &Endless::Count, size_t, &Endless::Place>>(s, e, n, "iterator");
    uni::VirtualIteratorProxy<Endless, &Endless::Count, size_t, &Endless::Place> px(&e);
    REQUIRE(px.end() != px.begin() || !n, "proxy over " << n);
    if (n < 400) {
      size_t k = 0;
      for (auto v : px) REQUIRE_EQ((size_t)v, k++, "element by a proxy");
      REQUIRE_EQ(k, n, "elements by a proxy");
    }
  } else {
    EndlessList e;
    e.n = n;
    const uni::Vector<size_t> &l = e;
    places<uni::Vector<size_t>::iterator_type_const>(s, l, n, "list iterator");
    if (n) REQUIRE(l[n - 1] == n - 1 && *l.begin() == 0 && l.begin() != l.end(), "list of " << n);
  }
}
PBT_TEST(walks, 20000, 400000) {
  {
    SomeSkeleton sk;
    sk.own = s.coin(), sk.bones.lend = s.coin();
    size_t n = s.size(12);
    for (size_t i = 0; i < n; i++) { SomeBone b; b.id = s.upto(1000), b.mask = 3; sk.bones.v.push_back(b); }
    for (size_t i = 1; i < n; i++) if (s.coin()) sk.bones.v[i].parent = &sk.bones.v[s.upto(i - 1)];
    if (n > 1 && sk.own) s.nontrivial();
    s.label(sk.own ? "list made when asked" : "list lent");
    const Skeleton &c = sk;
    int before = live;
    for (int times = 0, m = 1 + s.upto(1); times < m; times++) {
      size_t at = 0, stop = s.chance(1, 4) ? s.upto(n) : n + 1;
      for (auto b : c) {
        if (at == stop) break;
        REQUIRE(at < n, "walk over a skeleton went past its " << n << " bones");
        const SomeBone &me = sk.bones.v[at];
        RTSValue r;
        b->GetTM(r);
        REQUIRE(b->Index() == (size_t)me.id && b->Parent() == me.parent && all(r.translation, (float)me.id), "bone " << at << " of a walk over a skeleton");
        REQUIRE_EQ(b->Name(), "bone" + std::to_string(me.id), "name of bone " << at);
        at++;
      }
      REQUIRE(at == n || at == stop, "walk over a skeleton ended after " << at << " of " << n << " bones");
      REQUIRE_EQ(live, before, "objects alive after a walk over a skeleton");
    }
    auto it = c.begin(), e = c.end();
    auto it2 = it;
    for (size_t i = 0; i < n; i++) {
      REQUIRE(it != e && !(it == e), "iterator at its end after " << i << " of " << n);
      REQUIRE_EQ((*it)->Index(), (size_t)sk.bones.v[i].id, "bone by iterator");
      if (s.coin()) REQUIRE(&++it == &it, "result of an increment");
      else { auto old = it++; REQUIRE_EQ((*old)->Index(), (size_t)sk.bones.v[i].id, "bone by the iterator before its increment"); REQUIRE(old != it, "iterator after its increment"); }
    }
    REQUIRE(it == e && !(it != e), "iterator not at its end");
    { // iterators made for a place
      typedef decltype(sk.bones.begin()) It;
      const List<Bone> *l = &sk.bones;
      size_t from = s.upto(n), at = from;
      It i(l, from), end(l), first(l, 0);
      REQUIRE(end == l->end() && first == l->begin() && (i == end) == (from == n) && (i == first) == !from, "iterator made for place " << from << " of " << n);
      for (; i != end; ++i, at++) {
        REQUIRE(at < n, "iterator made for place " << from << " went past " << n);
        REQUIRE_EQ((*i)->Index(), (size_t)sk.bones.v[at].id, "bone " << at << " by an iterator made for place " << from);
      }
      REQUIRE_EQ(at, n, "end of an iterator made for place " << from);
      typedef uni::ElementIterator<List<Bone>> Keeping;
      Keeping k(((const SomeSkeleton &)sk).Bones(), from), ke(((const SomeSkeleton &)sk).Bones());
      for (at = from; k != ke; at++) {
        REQUIRE(at < n, "keeping iterator made for place " << from << " went past " << n);
        Keeping same = k++;
        REQUIRE_EQ((*same)->Index(), (size_t)sk.bones.v[at].id, "bone " << at << " by a keeping iterator made for place " << from);
      }
      REQUIRE_EQ(at, n, "end of a keeping iterator made for place " << from);
    }
    if (n) { REQUIRE_EQ((*it2)->Index(), (size_t)sk.bones.v[0].id, "bone by a copied iterator"); REQUIRE(it2 != it, "copied iterator moved along"); }
  }
  {
    SomeMotion mo;
    mo.own = s.coin(), mo.tracks.lend = s.coin(), mo.rate = (unsigned)s.bits(16);
    size_t n = s.size(12), at = 0;
    for (size_t i = 0; i < n; i++) { LiveTrack t; t.bone = s.upto(1000), t.mask = 8, t.k = (float)s.upto(50), t.type = MotionTrack::SingleFloat; mo.tracks.v.push_back(t); }
    const Motion &c = mo;
    int before = live;
    for (auto t : c) {
      REQUIRE(at < n, "walk over a motion went past its " << n << " tracks");
      float f = -1;
      t->GetValue(f, 2);
      REQUIRE(t->BoneIndex() == mo.tracks.v[at].bone && f == mo.tracks.v[at].k * 2, "track " << at << " of a walk over a motion");
      at++;
    }
    REQUIRE_EQ(at, n, "tracks of a walk over a motion");
    REQUIRE_EQ(live, before, "objects alive after a walk over a motion");
    int o = outcome([&] { c.FrameRate(30); });
    REQUIRE_EQ(o, 2, "setting a frame rate that cannot be set");
    REQUIRE_EQ((unsigned)c.FrameRate(), mo.rate, "frame rate");
  }
  REQUIRE_EQ(live, 0, "objects alive at the end");
}
