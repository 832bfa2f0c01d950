// C34: Python bindings, in a stand-in for the Python 2 C interface.
#include "pbt.hpp"
#include "gen_reflcls.hpp"
#include "uni/python/pymotion.hpp"
#include "uni/python/pyskeleton.hpp"
#include "uni/python/pyrts.hpp"
#include "uni/rts.hpp"
#include "datas/matrix44.hpp"
#include "datas/python/matrix44.hpp"
#include "datas/python/vectors.hpp"
#include "datas/python/reflected_enum.hpp"
#include "datas/reflector.hpp"
#include <cmath>
#include <functional>
#include <memory>
#include <stdexcept>
using pbt::Src;
using pystub::S;
using std::string;
using namespace uni;

static int live;
struct Counted {
  uint32_t magic = 0xfeedbeef;
  Counted() { live++; }
  Counted(const Counted &) { live++; }
  ~Counted() { REQUIRE_ALIVE(); magic = 0; live--; }
  void REQUIRE_ALIVE() const { if (magic != 0xfeedbeef) pystub::bad("an object of the library was used after its end"); }
};

//---------------------------------------------------------------- interpreter
static Py_ssize_t noneRefs;
static void initModule() {
  static bool once = false;
  if (once) return;
  once = true;
  PyObject *mod = PyInt_FromLong(0);
  UniPy::Skeleton::InitType(mod);
  UniPy::Motion::InitType(mod);
  Py_DECREF(mod);
}
static void begin() {
  S.live.clear(), S.problem.clear(), S.err = nullptr;
  initModule();
  live = 0;
  noneRefs = pystub::none.ob_refcnt;
}
static void sane(const string &what) { REQUIRE(S.problem.empty(), S.problem << " (after " << what << ")"); }
static void end() {
  sane("the last call");
  REQUIRE(S.live.empty(), S.live.size() << " Python objects left, one of type " << ((PyObject *)S.live.begin()->first)->ob_type->tp_name);
  REQUIRE_EQ(pystub::none.ob_refcnt, noneRefs, "references of None");
  REQUIRE_EQ(live, 0, "objects of the library left");
}
template <class F> static auto guarded(const string &what, F f) -> decltype(f()) {
  try {
    return f();
  } catch (const pbt::Failure &) {
    throw;
  } catch (const std::exception &e) {
    REQUIRE(false, "a C++ exception left " << what << ": " << e.what());
  } catch (...) {
    REQUIRE(false, "a C++ exception left " << what);
  }
  throw 0;
}
// a call that must succeed, owned by the caller
static PyObject *got(PyObject *o, const string &what) {
  sane(what);
  REQUIRE(o, what << " failed: " << S.errText);
  REQUIRE(pystub::known(o), what << " gave an object that is gone");
  REQUIRE(!S.err, what << " gave a value and an error: " << S.errText);
  REQUIRE(o == Py_None || Py_REFCNT(o) >= 1, what << " gave an object nobody holds");
  return o;
}
static void failed(PyObject *o, const string &what, std::initializer_list<PyObject *> kinds) {
  sane(what);
  REQUIRE(!o, what << " succeeded");
  bool ok = !kinds.size();
  for (auto k : kinds) ok |= S.err == k;
  REQUIRE(S.err || !kinds.size(), what << " failed without an error");
  REQUIRE(ok, what << " raised error number " << (S.err - pystub::excs) << ": " << S.errText);
  PyErr_Clear();
}
static PyObject *getattr(PyObject *o, const char *name) {
  auto t = Py_TYPE(o);
  return guarded(string("reading ") + name, [&]() -> PyObject * {
    if (t->tp_getattr) return t->tp_getattr(o, (char *)name);
    for (auto g = t->tp_getset; g && g->name; g++)
      if (!strcmp(g->name, name)) {
        if (g->get) return g->get(o, g->closure);
      }
    PyErr_SetNone(PyExc_AttributeError);
    return nullptr;
  });
}
static int setattr(PyObject *o, const char *name, PyObject *v) {
  auto t = Py_TYPE(o);
  return guarded(string("writing ") + name, [&]() -> int {
    for (auto g = t->tp_getset; g && g->name; g++)
      if (!strcmp(g->name, name) && g->set) return g->set(o, v, g->closure);
    PyErr_SetNone(PyExc_AttributeError);
    return -1;
  });
}
static PyObject *call(PyObject *o, const char *name, PyObject *args) {
  auto t = Py_TYPE(o);
  return guarded(string("calling ") + name, [&]() -> PyObject * {
    for (auto m = t->tp_methods; m && m->ml_name; m++)
      if (!strcmp(m->ml_name, name)) {
        REQUIRE(m->ml_flags == METH_VARARGS, "flags of " << name);
        return m->ml_meth(o, args);
      }
    PyErr_SetNone(PyExc_AttributeError);
    return nullptr;
  });
}
static PyObject *subscript(PyObject *o, PyObject *key) {
  return guarded("reading an item", [&] { return Py_TYPE(o)->tp_as_mapping->mp_subscript(o, key); });
}
static size_t length(PyObject *o) {
  auto r = guarded("asking for the length", [&] { return Py_TYPE(o)->tp_as_mapping->mp_length(o); });
  sane("len");
  REQUIRE(r >= 0 && !S.err, "length failed");
  return (size_t)r;
}
static string str(PyObject *o, const string &what) {
  REQUIRE(PyString_Check(o), what << " is no string but " << Py_TYPE(o)->tp_name);
  return string(PyString_AS_STRING(o), Py_SIZE(o));
}
static __int128 integer(PyObject *o, const string &what) {
  REQUIRE(PyInt_Check(o) || PyLong_Check(o), what << " is no number but " << Py_TYPE(o)->tp_name);
  return ((PyIntObject *)o)->v;
}
static double real(PyObject *o, const string &what) {
  REQUIRE(PyFloat_Check(o), what << " is no float but " << Py_TYPE(o)->tp_name);
  return PyFloat_AS_DOUBLE(o);
}
static void sameNum(double got, double want, const string &what) {
  REQUIRE(std::isnan(want) ? std::isnan(got) : got == want && std::signbit(got) == std::signbit(want), what << " is " << got << ", not " << want);
}
static void tuple(PyObject *o, const float *v, size_t n, const string &what) {
  REQUIRE(PyTuple_Check(o), what << " is no tuple but " << Py_TYPE(o)->tp_name);
  REQUIRE_EQ((size_t)Py_SIZE(o), n, "items of " << what);
  for (size_t i = 0; i < n; i++) sameNum(real(PyTuple_GET_ITEM(o, i), what), v[i], what + " component " + std::to_string(i));
}
static void tuples(PyObject *o, const std::vector<Vector4A16> &v, const string &what) {
  REQUIRE(PyTuple_Check(o), what << " is no tuple but " << Py_TYPE(o)->tp_name);
  REQUIRE_EQ((size_t)Py_SIZE(o), v.size(), "parts of " << what);
  for (size_t i = 0; i < v.size(); i++) tuple(PyTuple_GET_ITEM(o, i), v[i]._arr, 4, what + " part " + std::to_string(i));
}
static void rtsIs(PyObject *o, const RTSValue &r, const string &what) { tuples(o, {r.translation, r.rotation, r.scale}, what); }
static void mtxIs(PyObject *o, const esMatrix44 &m, const string &what) { tuples(o, {m.r1(), m.r2(), m.r3(), m.r4()}, what); }

static string genName(Src &s) {
  switch (s.upto(3)) {
  case 0: return s.pick({"a", "b", "root", ""});
  case 1: return s.ident(8);
  case 2: return s.bytes(s.size(40));
  default: return s.bulk(s.size(700));
  }
}
static float genFloat(Src &s) {
  if (s.chance(1, 8)) { uint32_t u = (uint32_t)s.bits(32); float f; memcpy(&f, &u, 4); return f; }
  return (float)s.irange(-100000, 100000) / 64;
}
static Vector4A16 genVec(Src &s) {
  Vector4A16 v;
  for (auto &c : v._arr) c = genFloat(s);
  return v;
}

//---------------------------------------------------------------- data
// List of things; items are lent or copies, made for the caller
template <class I, class C> struct L : List<I>, Counted {
  const std::vector<std::shared_ptr<C>> *src;
  bool copies;
  L(const std::vector<std::shared_ptr<C>> *v, bool c) : src(v), copies(c) {}
  size_t Size() const override { REQUIRE_ALIVE(); return src->size(); }
  typename List<I>::const_type At(size_t id) const override {
    REQUIRE_ALIVE();
    auto &c = src->at(id);
    if (copies) return typename List<I>::const_type(new C(*c));
    return typename List<I>::const_type(c.get(), false);
  }
};
struct BoneD : Bone, Counted {
  string name;
  size_t id = 0;
  int tm = 0;
  RTSValue r;
  esMatrix44 m;
  const BoneD *parent = nullptr;
  TransformType TMType() const override { REQUIRE_ALIVE(); return (TransformType)tm; }
  void GetTM(RTSValue &o) const override { if (tm == TMTYPE_RTS) o = r; else Bone::GetTM(o); }
  void GetTM(esMatrix44 &o) const override { if (tm == TMTYPE_MATRIX) o = m; else Bone::GetTM(o); }
  const Bone *Parent() const override { REQUIRE_ALIVE(); return parent; }
  size_t Index() const override { REQUIRE_ALIVE(); return id; }
  string Name() const override { REQUIRE_ALIVE(); return name; }
};
struct SkelD : Skeleton, Counted {
  string name;
  std::shared_ptr<std::vector<std::shared_ptr<BoneD>>> bones;
  std::shared_ptr<L<Bone, BoneD>> lent; // otherwise made
  bool copies = false;
  SkeletonBonesConst Bones() const override {
    REQUIRE_ALIVE();
    if (lent) return SkeletonBonesConst(lent.get(), false);
    return SkeletonBonesConst(new L<Bone, BoneD>(bones.get(), copies));
  }
  string Name() const override { REQUIRE_ALIVE(); return name; }
};
static const char *badKeyName[] = {"the length", "behind the end", "minus one", "far below zero", "a number beyond all indices", "text", "None"};
static void badKey(Src &s, PyObject *o, size_t n) {
  unsigned k = (unsigned)s.upto(6);
  PyObject *key;
  switch (k) {
  case 0: key = PyInt_FromSize_t(n); break;
  case 1: key = PyInt_FromSize_t(n + s.bits(40)); break;
  case 2: key = PyInt_FromLong(-1); break;
  case 3: key = PyLong_FromLong(-(long)s.bits(62) - 1); break;
  case 4: key = PyLong_FromSize_t(~(size_t)0 - s.upto(10)); break;
  case 5: key = PyString_FromString("0"); break;
  default: key = Py_None; Py_INCREF(key);
  }
  auto r = subscript(o, key);
  string what = string("reading at ") + badKeyName[k];
  if (k < 4) failed(r, what, {PyExc_IndexError});
  else failed(r, what, {PyExc_IndexError, PyExc_TypeError, PyExc_OverflowError, PyExc_ValueError});
  Py_DECREF(key);
  sane(what);
}
// loops over a list and compares every item; some are kept
template <class F> static void loop(Src &s, PyObject *o, size_t n, F item) {
  auto t = Py_TYPE(o);
  REQUIRE(t->tp_iter, "no loops over " << t->tp_name);
  auto before = Py_REFCNT(o);
  auto it = got(guarded("starting a loop", [&] { return t->tp_iter(o); }), "starting a loop");
  size_t stop = s.chance(1, 4) ? s.upto(n) : n + 1;
  for (size_t i = 0;; i++) {
    if (i == stop) break;
    REQUIRE(Py_TYPE(it)->tp_iternext, "not an iterator");
    auto e = guarded("the next item", [&] { return Py_TYPE(it)->tp_iternext(it); });
    if (i == n) {
      sane("end of a loop");
      REQUIRE(!e && (!S.err || S.err == PyExc_StopIteration), "the loop goes on behind the last of " << n);
      PyErr_Clear();
      break;
    }
    got(e, "item " + std::to_string(i) + " of a loop over " + std::to_string(n));
    item(e, i);
  }
  Py_DECREF(it);
  sane("end of a loop");
  REQUIRE_EQ(Py_REFCNT(o), before, "references of the list after a loop");
}

struct Held {
  PyObject *o;
  int kind; // 0 list of skeletons, 1 skeleton, 2 list of bones, 3 bone
  const SkelD *skel;
  const BoneD *bone;
};
PBT_TEST(skeletons, 20000, 500000) {
  begin();
  string last;
  {
    std::vector<std::shared_ptr<SkelD>> skels;
    size_t ns = 1 + s.upto(3);
    for (size_t i = 0; i < ns; i++) {
      auto k = std::make_shared<SkelD>();
      k->name = genName(s);
      k->bones = std::make_shared<std::vector<std::shared_ptr<BoneD>>>();
      size_t nb = s.size(20);
      for (size_t b = 0; b < nb; b++) {
        auto bn = std::make_shared<BoneD>();
        bn->name = genName(s);
        bn->id = s.coin() ? b : (size_t)s.bits(64);
        bn->tm = (int)s.upto(2);
        if (bn->tm == 0) bn->r = RTSValue(genVec(s), genVec(s), genVec(s));
        if (bn->tm == 1) bn->m = esMatrix44(genVec(s), genVec(s), genVec(s), genVec(s));
        if (b && s.coin()) bn->parent = (*k->bones)[s.upto(b - 1)].get();
        if (b && s.chance(1, 6)) { // twins
          auto &o = (*k->bones)[s.upto(b - 1)];
          bn->name = o->name;
          if (s.coin()) bn->id = o->id;
        }
        k->bones->push_back(bn);
      }
      k->copies = s.coin();
      if (s.coin()) k->lent = std::make_shared<L<Bone, BoneD>>(k->bones.get(), k->copies);
      skels.push_back(k);
    }
    std::vector<Held> held;
    L<Skeleton, SkelD> lentList(&skels, s.coin());
    switch (s.upto(3)) {
    case 0: held.push_back({got((PyObject *)UniPy::Skeleton::Create(Element<const Skeleton>(skels[0].get(), false)), "making a skeleton"), 1, skels[0].get(), nullptr}); break;
    case 1: held.push_back({got((PyObject *)UniPy::Skeleton::Create(Element<const Skeleton>(new SkelD(*skels[0]))), "making a skeleton"), 1, skels[0].get(), nullptr}); break;
    case 2: held.push_back({got(UniPy::Skeleton::Create(SkeletonsConst(&lentList, false)), "making a list of skeletons"), 0, nullptr, nullptr}); break;
    default: held.push_back({got(UniPy::Skeleton::Create(SkeletonsConst(new L<Skeleton, SkelD>(&skels, s.coin()))), "making a list of skeletons"), 0, nullptr, nullptr});
    }
    auto boneIs = [&](PyObject *o, const BoneD *b, const string &what) {
      REQUIRE(Py_TYPE(o) == UniPy::Bone::GetType(), what << " is no bone but " << Py_TYPE(o)->tp_name);
      auto n = got(getattr(o, "name"), "name of " + what);
      REQUIRE_EQ(str(n, "name of " + what), b->name, "name of " << what);
      Py_DECREF(n);
      auto i = got(getattr(o, "index"), "index of " + what);
      REQUIRE(integer(i, "index of " + what) == (__int128)b->id, "index of " << what << ": " << (uint64_t)integer(i, what) << ", not " << b->id);
      Py_DECREF(i);
    };
    unsigned ops = (unsigned)s.size(40) + 1;
    for (unsigned op = 0; op < ops && !held.empty(); op++) {
      Held h = held[s.upto(held.size() - 1)]; // copy: the pool grows
      last = std::to_string(op);
      unsigned w = (unsigned)s.upto(9);
      if (w == 9) { // another reference, or one less
        size_t i = s.upto(held.size() - 1);
        if (s.coin()) { Py_INCREF(held[i].o); held.push_back(held[i]); }
        else { Py_DECREF(held[i].o); sane("dropping a reference"); held.erase(held.begin() + i); }
        continue;
      }
      if (h.kind == 0 || h.kind == 2) {
        size_t n = h.kind ? h.skel->bones->size() : skels.size();
        auto item = [&](PyObject *o, size_t i) {
          s.nontrivial(n >= 2);
          if (h.kind) boneIs(o, (*h.skel->bones)[i].get(), "bone " + std::to_string(i));
          else {
            REQUIRE(Py_TYPE(o) == UniPy::Skeleton::GetType(), "item of a list of skeletons is " << Py_TYPE(o)->tp_name);
            auto nm = got(getattr(o, "name"), "name of a skeleton");
            REQUIRE_EQ(str(nm, "name"), skels[i]->name, "name of skeleton " << i);
            Py_DECREF(nm);
          }
          if (held.size() < 30 && s.coin()) held.push_back({o, h.kind + 1, h.kind ? h.skel : skels[i].get(), h.kind ? (*h.skel->bones)[i].get() : nullptr});
          else Py_DECREF(o);
        };
        REQUIRE_EQ(length(h.o), n, "length of a list");
        if (w < 4 && n) {
          size_t i = s.upto(n - 1);
          auto key = s.coin() ? PyInt_FromSize_t(i) : PyLong_FromSize_t(i);
          item(got(subscript(h.o, key), "reading item " + std::to_string(i)), i);
          Py_DECREF(key);
        } else if (w < 6) badKey(s, h.o, n);
        else loop(s, h.o, n, item);
      } else if (h.kind == 1) {
        if (w < 3) {
          auto nm = got(getattr(h.o, "name"), "name of a skeleton");
          REQUIRE_EQ(str(nm, "name"), h.skel->name, "name of a skeleton");
          Py_DECREF(nm);
        } else {
          auto b = got(getattr(h.o, "bones"), "bones of a skeleton");
          REQUIRE_EQ(length(b), h.skel->bones->size(), "number of bones");
          held.push_back({b, 2, h.skel, nullptr});
        }
      } else {
        auto b = h.bone;
        boneIs(h.o, b, "a bone");
        if (w < 3) {
          auto t = got(getattr(h.o, "tm_type"), "transform type");
          REQUIRE(integer(t, "transform type") == b->tm, "transform type");
          Py_DECREF(t);
          auto m = got(getattr(h.o, "transform"), "transform");
          if (b->tm == TMTYPE_RTS) rtsIs(m, b->r, "transform");
          else if (b->tm == TMTYPE_MATRIX) mtxIs(m, b->m, "transform");
          else REQUIRE(m == Py_None, "transform of unknown kind is " << Py_TYPE(m)->tp_name);
          Py_DECREF(m);
        } else if (w < 6) {
          auto p = got(getattr(h.o, "parent"), "parent");
          if (!b->parent) { REQUIRE(p == Py_None, "parent of a root is " << Py_TYPE(p)->tp_name); Py_DECREF(p); }
          else {
            boneIs(p, b->parent, "the parent");
            if (s.coin()) held.push_back({p, 3, h.skel, b->parent});
            else Py_DECREF(p);
          }
        } else
          for (auto &o : held) {
            if (o.kind != 3) continue;
            auto c = guarded("comparing bones", [&] { return Py_TYPE(h.o)->tp_compare(h.o, o.o); });
            sane("comparing");
            REQUIRE(!S.err, "comparing failed");
            bool eq = o.bone == b || (o.bone->id == b->id && o.bone->name == b->name);
            s.label(eq ? "equal bones" : "different bones");
            REQUIRE((c == 0) == eq, "bones " << pbt::esc(b->name) << " " << b->id << " and " << pbt::esc(o.bone->name) << " " << o.bone->id << " compare as " << c);
          }
      }
      sane("operation " + last);
    }
    while (!held.empty()) {
      size_t i = s.upto(held.size() - 1);
      Py_DECREF(held[i].o);
      sane("dropping a reference");
      held.erase(held.begin() + i);
    }
  }
  end();
}

//---------------------------------------------------------------- motions
static float valueAt(uint64_t seed, float t, unsigned c) {
  uint32_t u;
  memcpy(&u, &t, 4);
  uint64_t x = seed ^ ((uint64_t)u << 17) ^ c;
  x ^= x >> 31, x *= 0x9e3779b97f4a7c15ull, x ^= x >> 29, x *= 0xbf58476d1ce4e5b9ull, x ^= x >> 32;
  return (float)((int32_t)x >> 8) / 64;
}
static Vector4A16 vecAt(uint64_t seed, float t, unsigned c) { return Vector4A16(valueAt(seed, t, c), valueAt(seed, t, c + 1), valueAt(seed, t, c + 2), valueAt(seed, t, c + 3)); }
struct TrackD : MotionTrack, Counted {
  int type = 0;
  size_t bone = 0;
  uint64_t seed = 0;
  TrackType_e TrackType() const override { REQUIRE_ALIVE(); return (TrackType_e)type; }
  size_t BoneIndex() const override { REQUIRE_ALIVE(); return bone; }
  void GetValue(RTSValue &o, float t) const override { if (type == PositionRotationScale) o = RTSValue(vecAt(seed, t, 0), vecAt(seed, t, 4), vecAt(seed, t, 8)); else MotionTrack::GetValue(o, t); }
  void GetValue(esMatrix44 &o, float t) const override { if (type == Matrix) o = esMatrix44(vecAt(seed, t, 0), vecAt(seed, t, 4), vecAt(seed, t, 8), vecAt(seed, t, 12)); else MotionTrack::GetValue(o, t); }
  void GetValue(Vector4A16 &o, float t) const override { if (type <= Scale) o = vecAt(seed, t, 0); else MotionTrack::GetValue(o, t); }
  void GetValue(float &o, float t) const override { if (type == SingleFloat) o = valueAt(seed, t, 0); else MotionTrack::GetValue(o, t); }
};
struct MotD : Motion, Counted {
  string name;
  std::shared_ptr<std::vector<std::shared_ptr<TrackD>>> tracks;
  std::shared_ptr<L<MotionTrack, TrackD>> lent;
  bool copies = false, fixed = false;
  int type = 0;
  float duration = 0;
  std::shared_ptr<uint32> rate = std::make_shared<uint32>();
  string Name() const override { REQUIRE_ALIVE(); return name; }
  void FrameRate(uint32 fps) const override { REQUIRE_ALIVE(); if (fixed) Motion::FrameRate(fps); else *rate = fps; }
  uint32 FrameRate() const override { REQUIRE_ALIVE(); return *rate; }
  float Duration() const override { REQUIRE_ALIVE(); return duration; }
  MotionTracksConst Tracks() const override {
    REQUIRE_ALIVE();
    if (lent) return MotionTracksConst(lent.get(), false);
    return MotionTracksConst(new L<MotionTrack, TrackD>(tracks.get(), copies));
  }
  MotionType_e MotionType() const override { REQUIRE_ALIVE(); return (MotionType_e)type; }
};
static void values(Src &s, PyObject *o, const TrackD &t) {
  size_t n = s.size(30);
  auto list = PyList_New(n);
  std::vector<float> times;
  bool bad = false;
  for (size_t i = 0; i < n; i++) {
    PyObject *e;
    switch (s.chance(1, 40) ? 3 : s.upto(2)) {
    case 0: e = PyFloat_FromDouble((double)s.irange(-100000, 100000) / (1 << s.upto(20))); break;
    case 1: e = PyInt_FromLong(s.irange(-1000, 1000)); break;
    case 2: e = PyLong_FromLong((long)s.bits(30)); break;
    default: bad = true; e = s.coin() ? PyString_FromString("1") : (Py_INCREF(Py_None), Py_None);
    }
    if (!bad) times.push_back((float)(PyFloat_Check(e) ? PyFloat_AS_DOUBLE(e) : (double)((PyIntObject *)e)->v));
    PyList_SetItem(list, i, e);
  }
  std::vector<Py_ssize_t> refs;
  for (size_t i = 0; i < n; i++) refs.push_back(Py_REFCNT(PyList_GET_ITEM(list, i)));
  unsigned form = s.chance(1, 10) ? 1 + (unsigned)s.upto(2) : 0;
  PyObject *args;
  if (form == 0) args = Py_BuildValue("(O)", list);
  else if (form == 1) args = PyTuple_New(0);
  else if (form == 2) args = Py_BuildValue("(i)", 3);
  else args = Py_BuildValue("(OO)", list, list);
  auto r = call(o, "get_values", args);
  if (form) failed(r, "get_values with wrong arguments", {PyExc_TypeError});
  else if (bad) failed(r, "get_values with times that are no numbers", {PyExc_TypeError});
  else {
    got(r, "get_values");
    if (t.type > MotionTrack::SingleFloat) REQUIRE(r == Py_None, "values of an unknown kind of track");
    else {
      REQUIRE(PyList_Check(r), "get_values gave " << Py_TYPE(r)->tp_name);
      REQUIRE_EQ((size_t)Py_SIZE(r), n, "number of values");
      s.nontrivial(n >= 2);
      for (size_t i = 0; i < n; i++) {
        auto v = PyList_GET_ITEM(r, i);
        REQUIRE(v, "value " << i << " of " << n << " is missing");
        float x = times[i];
        string what = "value " + std::to_string(i) + " of " + std::to_string(n) + ", track type " + std::to_string(t.type) + ", time " + pbt::show(x);
        if (t.type <= MotionTrack::Scale) tuple(v, vecAt(t.seed, x, 0)._arr, 4, what);
        else if (t.type == MotionTrack::SingleFloat) sameNum(real(v, what), valueAt(t.seed, x, 0), what);
        else if (t.type == MotionTrack::Matrix) tuples(v, {vecAt(t.seed, x, 0), vecAt(t.seed, x, 4), vecAt(t.seed, x, 8), vecAt(t.seed, x, 12)}, what);
        else tuples(v, {vecAt(t.seed, x, 0), vecAt(t.seed, x, 4), vecAt(t.seed, x, 8)}, what);
      }
    }
    Py_DECREF(r);
  }
  Py_DECREF(args);
  REQUIRE_EQ(Py_REFCNT(list), 1, "references of the list of times");
  for (size_t i = 0; i < n; i++)
    if (PyList_GET_ITEM(list, i) != Py_None) REQUIRE_EQ(Py_REFCNT(PyList_GET_ITEM(list, i)), refs[i], "references of time " << i);
  Py_DECREF(list);
}
PBT_TEST(motions, 20000, 500000) {
  begin();
  {
    std::vector<std::shared_ptr<MotD>> mots;
    size_t nm = 1 + s.upto(3);
    for (size_t i = 0; i < nm; i++) {
      auto k = std::make_shared<MotD>();
      k->name = genName(s);
      k->tracks = std::make_shared<std::vector<std::shared_ptr<TrackD>>>();
      size_t nt = s.size(20);
      for (size_t b = 0; b < nt; b++) {
        auto t = std::make_shared<TrackD>();
        t->type = (int)s.upto(6);
        t->bone = (size_t)s.bits(64);
        t->seed = s.upto(~0ull);
        k->tracks->push_back(t);
      }
      k->type = (int)s.upto(3);
      k->duration = genFloat(s);
      *k->rate = (uint32)s.bits(32);
      k->fixed = s.chance(1, 4);
      k->copies = s.coin();
      if (s.coin()) k->lent = std::make_shared<L<MotionTrack, TrackD>>(k->tracks.get(), k->copies);
      mots.push_back(k);
    }
    struct H { PyObject *o; int kind; const MotD *m; const TrackD *t; };
    std::vector<H> held;
    L<Motion, MotD> lentList(&mots, s.coin());
    switch (s.upto(3)) {
    case 0: held.push_back({got((PyObject *)UniPy::Motion::Create(Element<const Motion>(mots[0].get(), false)), "making a motion"), 1, mots[0].get(), nullptr}); break;
    case 1: held.push_back({got((PyObject *)UniPy::Motion::Create(Element<const Motion>(new MotD(*mots[0]))), "making a motion"), 1, mots[0].get(), nullptr}); break;
    case 2: held.push_back({got(UniPy::Motion::Create(MotionsConst(&lentList, false)), "making a list of motions"), 0, nullptr, nullptr}); break;
    default: held.push_back({got(UniPy::Motion::Create(MotionsConst(new L<Motion, MotD>(&mots, s.coin()))), "making a list of motions"), 0, nullptr, nullptr});
    }
    unsigned ops = (unsigned)s.size(40) + 1;
    for (unsigned op = 0; op < ops && !held.empty(); op++) {
      H h = held[s.upto(held.size() - 1)];
      unsigned w = (unsigned)s.upto(9);
      if (w == 9) {
        size_t i = s.upto(held.size() - 1);
        if (s.coin()) { Py_INCREF(held[i].o); held.push_back(held[i]); }
        else { Py_DECREF(held[i].o); sane("dropping a reference"); held.erase(held.begin() + i); }
        continue;
      }
      auto trackIs = [&](PyObject *o, const TrackD *t) {
        REQUIRE(Py_TYPE(o) == UniPy::MotionTrack::GetType(), "item of a list of tracks is " << Py_TYPE(o)->tp_name);
        auto x = got(getattr(o, "track_type"), "type of a track");
        REQUIRE(integer(x, "type of a track") == t->type, "type of a track");
        Py_DECREF(x);
        x = got(getattr(o, "bone_index"), "bone of a track");
        REQUIRE(integer(x, "bone of a track") == (__int128)t->bone, "bone of a track, not " << t->bone);
        Py_DECREF(x);
      };
      auto nameIs = [&](PyObject *o, const MotD *m) {
        REQUIRE(Py_TYPE(o) == UniPy::Motion::GetType(), "item of a list of motions is " << Py_TYPE(o)->tp_name);
        auto x = got(getattr(o, "name"), "name of a motion");
        REQUIRE_EQ(str(x, "name of a motion"), m->name, "name of a motion");
        Py_DECREF(x);
      };
      auto rateIs = [&](PyObject *o, const MotD *m) {
        auto x = got(getattr(o, "framerate"), "frame rate");
        REQUIRE(integer(x, "frame rate") == *m->rate, "frame rate is " << (int64_t)integer(x, "") << ", not " << *m->rate);
        Py_DECREF(x);
      };
      if (h.kind == 0 || h.kind == 2) {
        size_t n = h.kind ? h.m->tracks->size() : mots.size();
        auto item = [&](PyObject *o, size_t i) {
          s.nontrivial(n >= 2);
          if (h.kind) trackIs(o, (*h.m->tracks)[i].get());
          else nameIs(o, mots[i].get());
          if (held.size() < 30 && s.coin()) held.push_back({o, h.kind + 1, h.kind ? h.m : mots[i].get(), h.kind ? (*h.m->tracks)[i].get() : nullptr});
          else Py_DECREF(o);
        };
        REQUIRE_EQ(length(h.o), n, "length of a list");
        if (w < 4 && n) {
          size_t i = s.upto(n - 1);
          auto key = s.coin() ? PyInt_FromSize_t(i) : PyLong_FromSize_t(i);
          item(got(subscript(h.o, key), "reading item " + std::to_string(i)), i);
          Py_DECREF(key);
        } else if (w < 6) badKey(s, h.o, n);
        else loop(s, h.o, n, item);
      } else if (h.kind == 1) {
        if (w < 2) {
          nameIs(h.o, h.m);
          auto x = got(getattr(h.o, "duration"), "duration");
          sameNum(real(x, "duration"), h.m->duration, "duration");
          Py_DECREF(x);
          x = got(getattr(h.o, "motion_type"), "motion type");
          REQUIRE(integer(x, "motion type") == h.m->type, "motion type");
          Py_DECREF(x);
        } else if (w < 5) {
          rateIs(h.o, h.m);
          uint32 was = *h.m->rate, want = (uint32)s.bits(32);
          unsigned how = (unsigned)s.upto(5);
          PyObject *v = how < 2 ? PyInt_FromSize_t(want) : how == 2 ? PyLong_FromSize_t(want) : how == 3 ? PyString_FromString("25") : how == 4 ? PyLong_FromSize_t(~(size_t)0 - want) : nullptr;
          int r = setattr(h.o, "framerate", v);
          sane("setting the frame rate");
          if (how > 2 || h.m->fixed) {
            REQUIRE(r == -1 && S.err, "setting " << (h.m->fixed && how < 3 ? "a frame rate that cannot change" : how == 3 ? "a frame rate to text" : how == 4 ? "a frame rate to a number too large" : "deleting a frame rate") << " gave " << r << (S.err ? " with an error" : " without an error"));
            PyErr_Clear();
            REQUIRE_EQ(*h.m->rate, was, "frame rate after a refused change");
          } else {
            REQUIRE(r == 0 && !S.err, "setting the frame rate failed");
            REQUIRE_EQ(*h.m->rate, want, "frame rate set");
          }
          if (v) Py_DECREF(v);
          rateIs(h.o, h.m);
        } else {
          auto b = got(getattr(h.o, "tracks"), "tracks of a motion");
          REQUIRE_EQ(length(b), h.m->tracks->size(), "number of tracks");
          held.push_back({b, 2, h.m, nullptr});
        }
      } else {
        trackIs(h.o, h.t);
        values(s, h.o, *h.t);
      }
      sane("an operation");
    }
    while (!held.empty()) {
      size_t i = s.upto(held.size() - 1);
      Py_DECREF(held[i].o);
      sane("dropping a reference");
      held.erase(held.begin() + i);
    }
  }
  end();
}

//---------------------------------------------------------------- enumerations
struct EnumCase {
  PyTypeObject *type;
  std::vector<std::pair<string, uint64_t>> items;
};
static const char enumDoc[] = "documentation";
template <class E> static EnumCase reflected() {
  EnumCase r{ReflectedEnumPy<E, enumDoc>::GetType(), {}};
  PyType_Ready(r.type);
  return r;
}
static const std::vector<EnumCase> &enums() {
  static std::vector<EnumCase> v;
  if (v.empty()) {
    v.push_back({(PyTypeObject *)S.module["uniBoneTMType"], {{"TMTYPE_RTS", 0}, {"TMTYPE_MATRIX", 1}}});
    v.push_back({(PyTypeObject *)S.module["uniMotionTrackType"], {{"Position", 0}, {"Rotation", 1}, {"Scale", 2}, {"Matrix", 3}, {"PositionRotationScale", 4}, {"SingleFloat", 5}}});
    v.push_back({(PyTypeObject *)S.module["uniMotionType"], {{"Absolute", 0}, {"Relative", 1}, {"Additive", 2}, {"Delta", 3}}});
#define X(C) v.push_back(reflected<C>()); for (auto &i : enumModel<C>().items) v.back().items.push_back(i);
    ALL_GEN_ENUMS(X)
  }
  return v;
}
PBT_TEST(enumerations, 30000, 600000) {
  begin();
  auto &c = s.pick(enums());
  REQUIRE(c.type, "an enumeration is not in the module");
  s.note([&](std::ostream &o) { o << c.type->tp_name; });
  auto obj = got(guarded("making an enumeration", [&] { return c.type->tp_new(c.type, nullptr, nullptr); }), "making an enumeration");
  size_t n = c.items.size();
  REQUIRE_EQ(length(obj), n, "length of " << c.type->tp_name);
  s.nontrivial(n >= 2);
  for (unsigned k = 0, e = 1 + (unsigned)s.upto(8); k < e; k++) {
    if (s.chance(1, 4)) { badKey(s, obj, n); continue; }
    size_t i = s.upto(n - 1);
    auto key = s.coin() ? PyInt_FromSize_t(i) : PyLong_FromSize_t(i);
    auto r = got(subscript(obj, key), "reading a name");
    REQUIRE_EQ(str(r, "name"), c.items[i].first, "name " << i << " of " << c.type->tp_name);
    Py_DECREF(r);
    Py_DECREF(key);
    string name = c.items[i].first;
    bool there = true;
    if (s.chance(1, 3)) {
      switch (s.upto(3)) {
      case 0: name += s.coin() ? 'x' : '0'; break;
      case 1: name.pop_back(); break;
      case 2: name = s.ident(6); break;
      default: name[s.upto(name.size() - 1)] ^= 0x20;
      }
      there = false;
      for (auto &x : c.items) if (x.first == name) there = true, i = &x - c.items.data();
    }
    auto v = getattr(obj, name.c_str());
    if (there) {
      got(v, "value of " + name);
      REQUIRE((uint64_t)integer(v, name) == c.items[i].second && integer(v, name) == (__int128)c.items[i].second, "value of " << name << " in " << c.type->tp_name << " is " << (uint64_t)integer(v, name) << ", not " << c.items[i].second);
      Py_DECREF(v);
    } else failed(v, "value of the unknown name " + name, {}); // the interpreter reports a failure without an error as SystemError
  }
  Py_DECREF(obj);
  end();
}

//---------------------------------------------------------------- plain values
PBT_TEST(plain_values, 20000, 400000) {
  begin();
  s.nontrivial();
  PyObject *o;
  Vector4A16 v = genVec(s);
  switch (s.upto(5)) {
  case 0: tuple(o = got(Py_BuildValue(Vector2(v.X, v.Y)), "Vector2"), v._arr, 2, "Vector2"); break;
  case 1: tuple(o = got(Py_BuildValue(::Vector(v.X, v.Y, v.Z)), "Vector"), v._arr, 3, "Vector"); break;
  case 2: tuple(o = got(Py_BuildValue(Vector4(v.X, v.Y, v.Z, v.W)), "Vector4"), v._arr, 4, "Vector4"); break;
  case 3: tuple(o = got(Py_BuildValue(v), "Vector4A16"), v._arr, 4, "Vector4A16"); break;
  case 4: {
    esMatrix44 m(v, genVec(s), genVec(s), genVec(s));
    mtxIs(o = got(Py_BuildValue(m), "matrix"), m, "matrix");
    break;
  }
  default: {
    RTSValue r(v, genVec(s), genVec(s));
    rtsIs(o = got(Py_BuildValue(r), "RTS"), r, "RTS");
  }
  }
  Py_DECREF(o);
  end();
}

//---------------------------------------------------------------- module
PBT_TEST(module_types, 300, 1000) {
  begin();
  s.nontrivial();
  struct { const char *name; PyTypeObject *type; } want[] = {{"uniBoneTMType", nullptr}, {"uni::Bone", UniPy::Bone::GetType()}, {"uni::BoneList", nullptr}, {"uni::Skeleton", UniPy::Skeleton::GetType()}, {"uni::SkeletonList", UniPy::Skeleton::GetListType()}, {"uniMotionTrackType", nullptr}, {"uniMotionType", nullptr}, {"uni::MotionTrack", UniPy::MotionTrack::GetType()}, {"uni::MotionTrackList", nullptr}, {"uni::Motion", UniPy::Motion::GetType()}, {"uni::MotionList", UniPy::Motion::GetListType()}};
  auto &w = s.pick(want);
  auto f = S.module.find(w.name);
  REQUIRE(f != S.module.end(), "the module has no " << w.name);
  auto t = (PyTypeObject *)f->second;
  REQUIRE(!w.type || t == w.type, "type of " << w.name);
  REQUIRE(t->tp_flags & Py_TPFLAGS_READY, w.name << " is not ready");
  REQUIRE(Py_REFCNT(t) >= 2, "references of " << w.name);
  REQUIRE(t->tp_doc && *t->tp_doc, w.name << " lacks documentation");
  end();
}

// any type can be put into any module; one that cannot be made ready stays out
template <int N> struct Addable {
  static PyTypeObject *GetType() {
    static char name[] = {'m', '.', 'T', (char)('0' + N), 0};
    static PyTypeObject t = [] { PyTypeObject t{}; t.ob_refcnt = 1; t.tp_name = name; return t; }();
    return &t;
  }
};
PBT_TEST(adding_types, 600, 6000) {
  begin();
  static PyTypeObject own[4];
  const bool tmpl = s.coin(), ready = s.upto(2) != 0;
  size_t k = s.upto(3);
  static char names[4][8] = {"own::A", "own::B", "C", "own.D"};
  PyTypeObject *t = tmpl ? (k == 0 ? Addable<0>::GetType() : k == 1 ? Addable<1>::GetType() : k == 2 ? Addable<2>::GetType() : Addable<3>::GetType()) : &own[k];
  string name = tmpl ? t->tp_name : names[k];
  char *nm = tmpl ? (char *)t->tp_name : names[k];
  *t = PyTypeObject{};
  t->ob_refcnt = 1;
  t->tp_name = nm;
  t->tp_flags = Py_TPFLAGS_DEFAULT;
  t->tp_basicsize = ready ? sizeof(PyObject) + s.upto(64) : (Py_ssize_t)s.upto(sizeof(PyObject) - 1);
  S.module.erase(name);
  const size_t others = S.module.size();
  PyObject *module = s.coin() ? (PyObject *)&pystub::none : nullptr;
  s.nontrivial();
  s.note([&](std::ostream &o) { o << (tmpl ? "by class " : "by type ") << name << (ready ? "" : ", cannot be ready"); });
  guarded("adding a type", [&]() -> PyObject * {
    if (!tmpl) PyAddType(module, t);
    else if (k == 0) PyAddType<Addable<0>>(module);
    else if (k == 1) PyAddType<Addable<1>>(module);
    else if (k == 2) PyAddType<Addable<2>>(module);
    else PyAddType<Addable<3>>(module);
    return nullptr;
  });
  auto f = S.module.find(name);
  if (ready) {
    REQUIRE(f != S.module.end() && f->second == (PyObject *)t, name << " is not in the module");
    REQUIRE(t->tp_flags & Py_TPFLAGS_READY, name << " is not ready");
    REQUIRE_EQ((size_t)Py_REFCNT(t), size_t(2), "references of " << name << ": the module holds one of its own");
    S.module.erase(name);
  } else {
    S.problem.clear(); // that it is a bad type is the point
    REQUIRE(f == S.module.end(), name << " is in the module and cannot be used");
    REQUIRE_EQ((size_t)Py_REFCNT(t), size_t(1), "references of " << name);
  }
  REQUIRE_EQ(S.module.size(), others, "entries of the module");
  end();
}
