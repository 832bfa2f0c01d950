// C14: path decomposition against a model over the normalised path.
#include "pbt.hpp"
#include <memory>
#include "datas/fileinfo.hpp"
#include "datas/stat.hpp"
using pbt::Src;

template <class C> using Str = std::basic_string<C>;
template <class C> using View = es::basic_string_view<C>;

template <class C> static Str<C> path(Src &s, size_t maxParts = 6) {
  Str<C> r;
  if (s.chance(1, 12)) return r;
  static const char *const names[] = {"a", "b", "home", "ho", "user.d", ".git", "..", ".", "x.tar.gz", "file.ext", "noext", "a b", ".", "trail."};
  auto sep = [&] { r += (C)(s.chance(1, 4) ? '\\' : '/'); };
  if (s.coin()) sep();
  size_t n = s.upto(s.chance(1, 400) ? 700 : maxParts);
  for (size_t i = 0; i < n; i++) {
    if (i) sep();
    if (s.chance(1, 12)) { sep(); continue; }
    if (s.chance(1, 30)) { // long parts in front of and behind a dot
      r.append(s.upto(s.chance(1, 5) ? 400 : 3), (C)'l');
      if (s.chance(4, 5)) r += (C)'.';
      r.append(s.chance(1, 100) ? s.upto(70000) : s.upto(400), (C)'e');
    } else if (s.chance(1, 3)) {
      size_t l = s.upto(s.chance(1, 20) ? 300 : 6);
      static const char al[] = {'a', '.', 'b', ' ', 'Z', ':', '-', (char)0xc3};
      for (size_t k = 0; k < l; k++) r += (C)(unsigned char)al[s.upto(7)];
    } else
      for (const char *c = s.pick(names); *c; c++) r += (C)*c;
  }
  if (s.chance(1, 4)) sep();
  return r;
}
template <class C> static std::string sh(const Str<C> &t) {
  std::string r = "'";
  for (C c : t) r += c >= ' ' && c < 127 ? (char)c : '?';
  return r + "'";
}
template <class C> static std::string sh(View<C> t) { return sh(t.to_string()); }

template <class C> struct Model {
  Str<C> full, folder, filename, name, ext, noext;
  std::vector<Str<C>> parts;
  bool lead, trail;
  explicit Model(Str<C> p) {
    for (C &c : p) if (c == '\\') c = '/';
    full = p;
    size_t f = 0;
    for (size_t i = 0; i < p.size(); i++) if (p[i] == '/') f = i + 1;
    folder = p.substr(0, f), filename = p.substr(f);
    size_t dot = filename.size();
    for (size_t i = 0; i < filename.size(); i++) if (filename[i] == '.') dot = i;
    if (!f && !dot) dot = filename.size(); // hidden file of the working folder
    name = filename.substr(0, dot), ext = filename.substr(dot), noext = folder + name;
    lead = !p.empty() && p[0] == '/';
    trail = p.size() > 1 && p.back() == '/';
    Str<C> cur;
    bool any = false;
    for (size_t i = lead; i < p.size(); i++) {
      if (p[i] == '/') parts.push_back(cur), cur.clear(), any = false;
      else cur += p[i], any = true;
    }
    if (any) parts.push_back(cur);
  }
};

template <class C> static void checkAll(const FileInfo<C> &f, const Model<C> &m, const std::string &what) {
  auto in = [&](View<C> v, const char *n) {
    View<C> w = f.GetFullPath();
    REQUIRE(v.empty() || (v.data() >= w.data() && v.data() + v.size() <= w.data() + w.size()), n << " is no slice of the path " << what);
  };
#define EQ(fn, want)                                                                                                   \
  REQUIRE(f.fn().to_string() == m.want, #fn " of " << what << " is " << sh(f.fn()) << " not " << sh(m.want));        \
  in(f.fn(), #fn);
  EQ(GetFullPath, full)
  EQ(GetFolder, folder)
  EQ(GetFilenameExt, filename)
  EQ(GetFilename, name)
  EQ(GetExtension, ext)
  EQ(GetFullPathNoExt, noext)
#undef EQ
  auto ex = f.Explode();
  REQUIRE_EQ(ex.size(), m.parts.size(), "components of " << what);
  for (size_t i = 0; i < ex.size(); i++) {
    REQUIRE(ex[i].to_string() == m.parts[i], "component " << i << " of " << what << " is " << sh(ex[i]) << " not " << sh(m.parts[i]));
    in(ex[i], "component");
  }
  // joining the first components gives the prefix of the path
  Str<C> j = m.lead ? Str<C>(1, (C)'/') : Str<C>();
  for (size_t i = 0; i < ex.size(); i++) {
    if (i) j += (C)'/';
    j += ex[i].to_string();
    REQUIRE(m.full.compare(0, j.size(), j) == 0, "first " << i + 1 << " components of " << what);
  }
}

template <class C> static void decompose(Src &s) {
  FileInfo<C> f;
  std::string hist;
  size_t n = 1 + s.upto(2);
  bool multi = false;
  for (size_t k = 0; k < n; k++) {
    Str<C> p = path<C>(s);
    Model<C> m(p);
    hist += (k ? " after " : "") + sh(p);
    std::unique_ptr<C[]> exact(new C[p.size()]);
    std::copy(p.begin(), p.end(), exact.get());
    if (!k && s.coin()) f = FileInfo<C>(View<C>(exact.get(), p.size()));
    else f.Load(View<C>(exact.get(), p.size()));
    checkAll(f, m, hist);
    FileInfo<C> copy(f);
    checkAll(copy, m, "copy of " + hist);
    multi |= m.parts.size() > 1;
    if (!m.ext.empty()) s.label("extension");
    if (p.empty()) s.label("empty");
    if (m.folder.empty()) s.label("no folder");
  }
  if (s.chance(1, 20)) {
    FileInfo<C> none;
    checkAll(none, Model<C>(Str<C>()), "no path loaded");
  }
  s.nontrivial(multi || n > 1);
  s.note([&](std::ostream &o) { o << hist; });
}
PBT_TEST(decomposition, 150000, 6000000) { s.chance(1, 4) ? decompose<wchar_t>(s) : decompose<char>(s); }

template <class C> static void branch(Src &s) {
  Str<C> p = path<C>(s), dest = path<C>(s, 8);
  Model<C> m(p);
  // often the folder ends in the first components of the path
  if (s.coin() && !m.parts.empty()) {
    if (!dest.empty() && dest.back() != '/' && s.chance(3, 4)) dest += (C)'/';
    size_t k = s.upto(std::min<size_t>(m.parts.size(), 2));
    for (size_t i = 0; i < k; i++) dest += m.parts[i], dest += (C)'/';
  }
  if (!m.parts.empty() && m.parts[0].empty()) p = (C)'a' + p, m = Model<C>(p);
  std::string what = sh(p) + " onto " + sh(dest);
  Str<C> want = dest + m.filename;
  if (!m.parts.empty()) {
    Str<C> norm = dest;
    for (C &c : norm) if (c == '\\') c = '/';
    for (size_t at = 0; at <= norm.size();) {
      size_t e = at;
      while (e < norm.size() && norm[e] != '/') e++;
      if (norm.substr(at, e - at) == m.parts[0]) {
        want = dest.substr(0, at) + m.full.substr(m.lead);
        s.label("branch");
        break;
      }
      at = e + 1;
    }
  }
  FileInfo<C> f{View<C>(p)};
  std::unique_ptr<C[]> exact(new C[dest.size()]);
  std::copy(dest.begin(), dest.end(), exact.get());
  auto got = f.CatchBranch(View<C>(exact.get(), dest.size()));
  REQUIRE(got == want, what << " is " << sh(got) << " not " << sh(want));
  s.nontrivial(m.parts.size() > 1 && dest.size() > 1);
  s.note([&](std::ostream &o) { o << what << " = " << sh(got); });
}
PBT_TEST(branches, 60000, 3000000) { s.chance(1, 4) ? branch<wchar_t>(s) : branch<char>(s); }
