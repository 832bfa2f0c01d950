// C33: public headers can be used alone, together, in any order, in several units.
#include "pbt.hpp"
#include <algorithm>
#include <dirent.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using pbt::Src;
using std::string;

static string repo() { const char *r = getenv("PBT_REPO"); return r && *r ? r : "/repo"; }
// Python 2 is not here: its interface is declared by py2/Python.h
static string py2() { string f = __FILE__; return f.substr(0, f.rfind('/')) + "/py2"; }
static std::vector<string> headers() {
  std::vector<string> r;
  for (string d : {"datas", "datas/encrypt", "datas/python", "formats", "uni", "uni/python"}) {
    DIR *h = opendir((repo() + "/" + d).c_str());
    if (!h) continue;
    while (auto e = readdir(h)) {
      string n = e->d_name;
      auto p = n.rfind('.');
      if (p == string::npos || (n.substr(p) != ".hpp" && n.substr(p) != ".h" && n.substr(p) != ".inl") || d + n.substr(p) == "uni/python.inl") continue;
      r.push_back(d + "/" + n);
    }
    closedir(h);
  }
  std::sort(r.begin(), r.end());
  return r;
}
static int run(const string &cmd, string &out) {
  FILE *p = popen((cmd + " 2>&1").c_str(), "r");
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, p)) > 0) out.append(b, n);
  return pclose(p);
}
struct Scratch {
  string d;
  Scratch() { const char *w = getenv("PBT_WORK"); d = string(w ? w : ".") + "/c33_" + std::to_string(getpid()); mkdir(d.c_str(), 0755); }
  ~Scratch() { for (auto f : {"a.cpp", "b.cpp", "m.cpp", "a.o", "b.o", "m.o", "p.o", "x"}) unlink((d + "/" + f).c_str()); rmdir(d.c_str()); }
};
static string compiler(Src &s) {
  string r = s.pick({"g++-9", "g++-9", "g++-9", "clang++", "g++"});
  r += s.chance(3, 4) ? " -std=gnu++14" : " -std=gnu++17";
  if (s.chance(1, 4)) r += " -fno-rtti";
  r += " -O0 -msse4 -Wno-invalid-offsetof -w -I" + repo() + " -I" + py2();
  return r;
}
static void errorsOf(const string &out, string &msg) {
  size_t p = out.find("error");
  if (p == string::npos) p = out.find("multiple");
  size_t b = p == string::npos ? 0 : out.rfind('\n', p);
  msg = out.substr(b == string::npos ? 0 : b, 600);
}
static string list(const std::vector<string> &v) { string r; for (auto &x : v) r += (r.empty() ? "" : ", ") + x; return r; }

// Every header on its own and repeated, in turn.
PBT_TEST(alone, 160, 1200) {
  static const auto H = headers();
  REQUIRE(H.size() > 40, "headers found: " << H.size());
  string h = H[s.upto(H.size() - 1)], cc = compiler(s);
  bool twice = s.coin();
  s.nontrivial();
  s.note([&](std::ostream &o) { o << h << (twice ? " twice " : " ") << cc; });
  Scratch t;
  std::ofstream(t.d + "/a.cpp") << "#include \"" << h << "\"\n" << (twice ? "#include \"" + h + "\"\n" : "") << "int used;\n";
  string out, msg;
  int rc = run(cc + " -fsyntax-only " + t.d + "/a.cpp", out);
  errorsOf(out, msg);
  REQUIRE_EQ(rc, 0, msg << "\n  in unit that includes " << h << (twice ? " twice" : "") << " with " << cc);
}
static std::vector<string> order(Src &s, const std::vector<string> &H, size_t n) {
  std::vector<string> pool = H, r;
  for (size_t i = 0; i < n; i++) { size_t k = s.upto(pool.size() - 1); r.push_back(pool[k]); if (pool.size() > 1) pool.erase(pool.begin() + k); }
  return r;
}
PBT_TEST(together, 50, 900) {
  static const auto H = headers();
  auto o = order(s, H, s.chance(1, 5) ? H.size() : s.range(2, 8));
  string cc = compiler(s);
  s.nontrivial();
  s.note([&](std::ostream &os) { os << list(o) << " " << cc; });
  Scratch t;
  { std::ofstream f(t.d + "/a.cpp"); for (auto &h : o) f << "#include \"" << h << "\"\n"; f << "int used;\n"; }
  string out, msg;
  int rc = run(cc + " -fsyntax-only " + t.d + "/a.cpp", out);
  errorsOf(out, msg);
  REQUIRE_EQ(rc, 0, msg << "\n  in unit that includes " << list(o) << " with " << cc);
}
// Two units of one program, in different orders.
PBT_TEST(program, 16, 300) {
  static const auto H = headers();
  auto o = order(s, H, s.chance(1, 3) ? H.size() : s.range(1, 6)), q = o;
  for (size_t i = q.size(); i-- > 1;) std::swap(q[i], q[s.upto(i)]);
  string cc = compiler(s);
  s.nontrivial();
  s.note([&](std::ostream &os) { os << list(o) << " / " << list(q) << " " << cc; });
  Scratch t;
  { std::ofstream f(t.d + "/a.cpp"); for (auto &h : o) f << "#include \"" << h << "\"\n"; f << "int used;\n"; }
  { std::ofstream f(t.d + "/b.cpp"); for (auto &h : q) f << "#include \"" << h << "\"\n"; f << "int main(){}\n"; }
  string out, msg;
  int rc = 0;
  for (string c : {"a", "b"}) if (!rc) rc = run(cc + " -c " + t.d + "/" + c + ".cpp -o " + t.d + "/" + c + ".o", out);
  if (!rc) rc = run(cc + " -c " + repo() + "/datas/master_printer.cpp -o " + t.d + "/p.o", out);
  if (!rc) rc = run(cc + " " + t.d + "/a.o " + t.d + "/b.o " + t.d + "/p.o -o " + t.d + "/x -lpugixml -lpthread", out);
  errorsOf(out, msg);
  REQUIRE_EQ(rc, 0, msg << "\n  in program of units that include " << list(o) << " and " << list(q) << " with " << cc);
  if (!rc) { out.clear(); rc = run(t.d + "/x", out); REQUIRE_EQ(rc, 0, "program of units that include " << list(o) << " fails at start"); }
}
