// C15: directory scanning, file types and folder creation against the tree that was really created.
// The harness has its own readdir so that file systems that report no entry types are covered.
#include "pbt.hpp"
#include "datas/directory_scanner.hpp"
#include "datas/stat.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <ftw.h>
#include <map>
#include <set>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
using pbt::Src;

static thread_local int typeMode = 0; // 0 as reported, 1 none reported, 2 every other
extern "C" struct dirent *readdir(DIR *d) {
  static auto real = (struct dirent * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir");
  struct dirent *r = real(d);
  if (r && (typeMode == 1 || (typeMode == 2 && (r->d_name[0] & 1)))) r->d_type = DT_UNKNOWN;
  return r;
}
extern "C" struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)readdir(d); }

static int unlinkOne(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
static std::string base() {
  static std::string b = [] {
    const char *w = getenv("PBT_WORK");
    char cwd[4096];
    std::string r = w && *w ? w : getcwd(cwd, sizeof cwd);
    return r + "/dirs." + std::to_string(getpid());
  }();
  return b;
}
struct Scratch {
  std::string root;
  Scratch() {
    static size_t n = 0;
    root = base() + "." + std::to_string(n++);
    if (::mkdir(root.c_str(), 0777)) abort();
  }
  ~Scratch() {
    if (chdir("/tmp")) {}
    nftw(root.c_str(), unlinkOne, 20, FTW_DEPTH | FTW_PHYS);
  }
};

static std::string name(Src &s) {
  static const char *const fixed[] = {"a", "b.cpp", "file.inl", ".hidden", "x.cpp.bak", "with space", "quote\"", "back\\slash", "back\\", "...", "cpp", "Ž.txt", "a.b.c", "..x", "x.CPP", "'", "*", "-f"};
  if (s.chance(1, 3)) return s.pick(fixed);
  static const char al[] = "ab.cp\"\\ ~";
  std::string r;
  size_t n = 1 + s.upto(s.chance(1, 30) ? 100 : 5);
  for (size_t i = 0; i < n; i++) r += al[s.upto(8)];
  if (r == "." || r == "..") r += "a";
  return r;
}
enum Kind { KFile, KDir, KLink, KFifo, KSock };
struct Tree {
  std::map<std::string, Kind> all; // path below the root
  std::map<std::string, std::string> files;
};
static void build(Src &s, const std::string &root, const std::string &rel, Tree &t, size_t depth, size_t &budget) {
  size_t n = s.upto(depth ? 4 : 7);
  for (size_t i = 0; i < n && budget; i++) {
    std::string nm = name(s), r = rel.empty() ? nm : rel + "/" + nm, full = root + "/" + r;
    if (t.all.count(r)) continue;
    budget--;
    size_t k = s.upto(9);
    if (k >= 6 && k <= 8 && depth < 6) {
      if (::mkdir(full.c_str(), 0777)) abort();
      t.all[r] = KDir;
      build(s, root, r, t, depth + 1, budget);
    } else if (k == 9 && s.coin()) { // links: to nothing, to a file, to a folder above
      r = (rel.empty() ? "" : rel + "/") + "lnk@" + std::to_string(i);
      if (symlink(s.pick({"nowhere", "a", "..", "."}), (root + "/" + r).c_str())) abort();
      t.all[r] = KLink;
    } else {
      std::ofstream(full) << r;
      t.all[r] = KFile;
      t.files[r] = nm;
    }
  }
}
static std::string slurp(const std::string &p, bool &ok) {
  std::ifstream f(p, std::ios::binary);
  ok = f.good();
  return std::string(std::istreambuf_iterator<char>(f), {});
}

PBT_TEST(scanning, 2500, 60000) {
  Scratch sc;
  Tree t;
  size_t budget = 40;
  build(s, sc.root, "", t, 0, budget);
  if (s.chance(1, 15)) { // a deep chain
    std::string r;
    size_t d = 10 + s.upto(30);
    for (size_t i = 0; i < d; i++) {
      r += r.empty() ? "d" : "/d";
      if (!t.all.count(r)) { if (::mkdir((sc.root + "/" + r).c_str(), 0777)) break; t.all[r] = KDir; }
      else if (t.all[r] != KDir) break;
    }
    if (t.all.count(r) && t.all[r] == KDir) {
      std::string f = r + "/deep.cpp";
      std::ofstream(sc.root + "/" + f) << f;
      t.all[f] = KFile, t.files[f] = "deep.cpp";
    }
  }
  std::vector<std::string> dirs{""};
  for (auto &e : t.all) if (e.second == KDir) dirs.push_back(e.first);
  DirectoryScanner ds;
  std::vector<std::string> filters;
  std::multimap<std::string, std::string> want; // path reported -> file below the root
  typeMode = (int)s.pick({0, 0, 1, 2});
  struct Reset { ~Reset() { typeMode = 0; } } reset;
  if (typeMode) s.label("types not reported");
  size_t nops = 1 + s.upto(5), scans = 0;
  std::string hist;
  bool nontriv = false;
  for (size_t op = 0; op < nops || !scans; op++) {
    switch (s.upto(6)) {
    case 0: {
      std::string f = s.chance(1, 3) ? name(s) : std::string(s.pick({".cpp", ".inl", "a", ".", "p", ".cpp.", "b", "\"", "hidden"}));
      if (f.size() > 1 && s.coin()) f = f.substr(s.upto(f.size() - 1));
      if (s.chance(1, 12)) f.clear(); // part of every name
      ds.AddFilter(f), filters.push_back(f), hist += " +" + f;
      s.label("filter");
      break;
    }
    case 1: ds.Clear(), want.clear(), hist += " clear"; break;
    case 2:
      if (s.coin()) ds.ClearFilters(), filters.clear(), hist += " nofilter";
      break;
    default: {
      scans++;
      if (s.chance(1, 12)) { // nothing there
        ds.Scan(sc.root + "/no such folder");
        hist += " missing";
        break;
      }
      std::string d = s.pick(dirs), arg = sc.root + (d.empty() ? "" : "/" + d), shown = arg + "/";
      bool odd = !d.empty() && (d.back() == '"' || d.back() == '\\');
      size_t form = s.upto(4);
      if (form == 0 || odd) arg += "/";
      else if (form == 1) arg += "\""; // left by a shell
      else if (form == 2) {
        if (chdir(arg.c_str())) abort();
        arg = "", shown = "";
      } else if (form == 3) {
        if (chdir(sc.root.c_str())) abort();
        arg = d.empty() ? "." : d, shown = arg + "/";
      }
      hist += " scan(" + d + "," + std::to_string(form) + ")";
      ds.Scan(arg);
      size_t hits = 0, below = 0;
      std::string pre = d.empty() ? "" : d + "/";
      std::multimap<std::string, std::string> one;
      for (auto &f : t.files) {
        if (f.first.compare(0, pre.size(), pre)) continue;
        below++;
        bool ok = filters.empty();
        for (auto &x : filters) ok |= f.second.find(x) != std::string::npos;
        if (!ok) continue;
        hits++;
        one.emplace(shown + f.first.substr(pre.size()), f.first);
      }
      nontriv |= hits > 1 || hits != below;
      want.insert(one.begin(), one.end());
      // every path just reported opens its file (before the working folder changes again)
      for (auto &r : one) {
        bool ok;
        std::string c = slurp(r.first, ok);
        REQUIRE(ok && c == r.second, "model path " << r.first << " does not open " << r.second);
      }
    }
    }
  }
  // links are reported or not, whatever they lead to; everything else exactly
  std::multiset<std::string> got, exp;
  auto isLink = [](const std::string &p) { return !p.compare(p.rfind('/') + 1, 4, "lnk@"); };
  for (auto &f : ds.Files()) got.insert(f);
  for (auto &w : want) exp.insert(w.first);
  for (auto &e : exp) REQUIRE_EQ(got.count(e), exp.count(e), "reports of " << e << " after" << hist);
  for (auto &g : got)
    if (!exp.count(g)) REQUIRE(isLink(g), "reported " << g << " is no file that was asked for, after" << hist);
  REQUIRE(std::vector<std::string>(ds.begin(), ds.end()) == ds.Files() && std::vector<std::string>(ds.cbegin(), ds.cend()) == ds.Files(), "iteration");
  s.nontrivial(nontriv);
  s.note([&](std::ostream &o) { o << t.files.size() << " files, " << dirs.size() << " folders:" << hist << " -> " << got.size(); });
}

// folders with thousands of entries
// Deeper than a process may have files open: folders above the one being read need not stay open.
PBT_TEST(deep_folders, 6, 60) {
  Scratch sc;
  struct Limit {
    rlimit old;
    Limit() { getrlimit(RLIMIT_NOFILE, &old); rlimit l = old; l.rlim_cur = std::min<rlim_t>(64, old.rlim_cur); setrlimit(RLIMIT_NOFILE, &l); }
    ~Limit() { setrlimit(RLIMIT_NOFILE, &old); }
  };
  size_t depth = 2 + s.upto(s.chance(1, 3) ? 10 : 200);
  const bool wide = s.chance(1, 3); // long names as well
  std::multiset<std::string> want, got;
  std::string r = sc.root;
  for (size_t i = 0; i < depth; i++) {
    r += "/d";
    if (wide) r += std::string(s.upto(250), 'd');
    if (r.size() > 4000) break; // a path has at most 4095 characters
    if (::mkdir(r.c_str(), 0777)) abort();
    size_t n = s.chance(1, 8) || i + 1 == depth ? 1 + s.upto(2) : 0;
    for (size_t j = 0; j < n; j++) {
      std::string f = r + "/" + (s.coin() ? "a" : "z") + std::to_string(j);
      std::ofstream(f) << j;
      want.insert(f);
    }
    if (s.chance(1, 10) && ::mkdir((r + "/e").c_str(), 0777)) abort();
  }
  DirectoryScanner ds;
  {
    Limit l;
    ds.Scan(sc.root);
  }
  for (auto &f : ds) got.insert(f);
  REQUIRE_EQ(got.size(), want.size(), "files below " << depth << " folders");
  REQUIRE(got == want, "paths below " << depth << " folders");
  s.nontrivial(depth > 64);
  s.note([&](std::ostream &o) { o << depth << " levels, " << want.size() << " files"; });
}

PBT_TEST(large_folders, 8, 200) {
  Scratch sc;
  size_t n = s.pick({1024, 4096, 6000}) + s.upto(40), every = 1 + s.upto(9), seen = 0, want = 0;
  std::string sub = s.coin() ? "/in" : "";
  if (!sub.empty()) es::mkdir(sc.root + sub);
  std::vector<char> got(n);
  for (size_t i = 0; i < n; i++) {
    std::string f = sc.root + sub + "/f" + std::to_string(i) + (i % every ? ".no" : ".yes");
    int fd = open(f.c_str(), O_CREAT | O_WRONLY, 0644);
    if (fd < 0) abort();
    close(fd);
    want += !(i % every);
  }
  DirectoryScanner ds;
  ds.AddFilter(".yes");
  ds.Scan(sc.root);
  for (auto &f : ds.Files()) {
    std::string pre = sc.root + sub + "/f";
    REQUIRE(!f.compare(0, pre.size(), pre), "reported " << f);
    size_t i = std::stoul(f.substr(pre.size()));
    REQUIRE(i < n && !(i % every) && !got[i], "reported " << f << " of " << n);
    got[i] = 1, seen++;
  }
  REQUIRE_EQ(seen, want, "files found in a folder of " << n);
  s.nontrivial();
}
PBT_TEST(file_types, 1500, 20000) {
  Scratch sc;
  std::string p = sc.root + "/" + name(s);
  FileType_e want = FileType_e::Error;
  size_t k = s.upto(8);
  int fd = -1;
  switch (k) {
  case 0: std::ofstream(p) << "x"; want = FileType_e::File; break;
  case 1: ::mkdir(p.c_str(), 0777); want = FileType_e::Directory; break;
  case 2: mkfifo(p.c_str(), 0666); want = FileType_e::Invalid; break;
  case 3: {
    sockaddr_un a{};
    a.sun_family = AF_UNIX;
    if (chdir(sc.root.c_str())) abort();
    snprintf(a.sun_path, sizeof a.sun_path, "s.sock");
    p = sc.root + "/s.sock";
    fd = socket(AF_UNIX, SOCK_STREAM, 0);
    if (fd < 0 || bind(fd, (sockaddr *)&a, sizeof a)) { // no sockets here
      std::ofstream(p) << "x";
      want = FileType_e::File;
    } else
      want = FileType_e::Invalid, s.label("socket");
    break;
  }
  case 4: p = "/dev/null"; want = FileType_e::Invalid; break;
  case 5: std::ofstream(sc.root + "/target") << "x"; if (symlink("target", p.c_str())) {} want = FileType_e::File; break;
  case 6: if (symlink(".", p.c_str())) {} want = FileType_e::Directory; break;
  case 7: if (symlink("nothing", p.c_str())) {} break;
  default: break;
  }
  if (want == FileType_e::File && s.coin()) chmod(p.c_str(), s.upto(07777));
  if (want == FileType_e::Directory && s.coin()) p += "/";
  if (k == 0 && s.chance(1, 4)) p += "/below", want = FileType_e::Error;
  auto got = FileType(p);
  if (fd >= 0) close(fd);
  REQUIRE_EQ((int)got, (int)want, "type of " << p << " of kind " << k);
  s.nontrivial(true);
  s.note([&](std::ostream &o) { o << "kind " << k << " -> " << (int)got; });
}

static bool isDir(const std::string &p) { struct stat st; return !stat(p.c_str(), &st) && S_ISDIR(st.st_mode); }
static void everything(const std::string &root, const std::string &rel, std::set<std::string> &out) {
  DIR *d = opendir((root + "/" + rel).c_str());
  if (!d) return;
  while (auto *e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string r = rel.empty() ? n : rel + "/" + n;
    out.insert(r);
    everything(root, r, out);
  }
  closedir(d);
}
struct Item { int other; std::string path; };
PBT_TEST(making_folders, 2500, 60000) {
  Scratch sc;
  std::set<std::string> had, want;
  // something is there already
  if (s.coin()) {
    Tree t;
    size_t budget = 8;
    build(s, sc.root, "", t, 2, budget);
    for (auto &e : t.all) {
      had.insert(e.first);
      if (e.second != KDir) { nftw((sc.root + "/" + e.first).c_str(), unlinkOne, 4, FTW_PHYS); had.erase(e.first); }
    }
  }
  want = had;
  std::vector<Item> items;
  size_t n = s.upto(5);
  std::vector<std::string> plain;
  for (size_t i = 0; i < n; i++) {
    std::string p, norm;
    size_t parts = s.upto(5);
    for (size_t k = 0; k < parts; k++) {
      std::string nm = s.chance(1, 2) ? std::string(s.pick({"a", "b", "ab", "a b", "a.d", "Z"})) : name(s);
      for (char &c : nm) if (c == '\\') c = '_'; // separators of a path
      p += nm, norm += nm;
      want.insert(norm);
      p += s.chance(1, 4) ? '\\' : '/', norm += '/';
    }
    if (s.chance(3, 4)) p += "file.ext";
    items.push_back({(int)i, p});
    plain.push_back(p);
  }
  std::string hist;
  for (auto &p : plain) hist += " '" + p + "'";
  size_t form = s.upto(3);
  if (form == 0) mkdirs(sc.root + "/", items, [](const Item &i) { return i.path; });
  else if (form == 1) mkdirs(sc.root + "/", plain, [](const std::string &i) -> const std::string & { return i; });
  else if (form == 2) for (auto &p : plain) mkdirs(sc.root + "/" + p);
  else {
    if (chdir(sc.root.c_str())) abort();
    for (auto &p : plain) mkdirs(p);
  }
  std::set<std::string> got;
  everything(sc.root, "", got);
  for (auto &w : want) REQUIRE(isDir(sc.root + "/" + w), "folder " << w << " was not made for" << hist << " form " << form);
  for (auto &g : got) REQUIRE(want.count(g), "made " << g << " too for" << hist << " form " << form);
  // a single folder, with its permissions
  mode_t old = umask(022);
  umask(old);
  std::string one = sc.root + "/single folder";
  uint32 mode = s.coin() ? 0777 : (uint32)(0700 | s.upto(077));
  int r = mode == 0777 ? es::mkdir(one) : s.coin() ? es::mkdir(one, mode) : es::mkdir(one.c_str(), mode);
  struct stat st;
  REQUIRE(!r && !stat(one.c_str(), &st) && S_ISDIR(st.st_mode), "single folder");
  REQUIRE_EQ(st.st_mode & 0777, mode & ~old & 0777, "permissions of a folder");
  es::mkdir(one);
  REQUIRE(isDir(one), "folder made again");
  s.nontrivial(want.size() > had.size() + 1);
  s.note([&](std::ostream &o) { o << "form " << form << hist << " over " << had.size(); });
}
