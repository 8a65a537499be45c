// C20: configuration files are read exactly as written
#include "mc.h"
#include <vector>
#include <algorithm>
#include <memory>
#include <fstream>
#include <iostream>
#include "utils/properties_providers.h"
using Lines = std::vector<std::string>; using Props = std::map<std::string, std::string>;
static std::string dir() { // scratch files of this process; inside the check's own temporary working directory
  static std::string d; static pid_t owner = 0;
  if (owner != getpid()) { owner = getpid(); d = "cfg." + std::to_string(owner); mkdir(d.c_str(), 0755); mkdir((d + "/sub").c_str(), 0755); }
  return d;
}
static void write(const std::string &name, const Lines &l, bool nl = true) { std::ofstream f(dir() + "/" + name); for (size_t i = 0; i < l.size(); ++i) { f << l[i]; if (nl || i + 1 < l.size()) f << "\n"; } }
// reference: within a file the last assignment wins; what is known already (earlier files, included files) is kept
struct Ref {
  std::map<std::string, Lines> files; Props known;
  void read(const std::string &name) {
    Props own; auto it = files.find(name); if (it == files.end()) return; std::string d = name.find('/') == std::string::npos ? "" : name.substr(0, name.rfind('/') + 1);
    for (auto &l : it->second) {
      if (l.empty() || l[0] == '#') continue;
      if (l[0] == '<') { if (l.size() > 1 && l.back() == '>') { std::string p = d + l.substr(1, l.size() - 2); size_t u; while ((u = p.find("sub/../")) != std::string::npos) p.erase(u, 7); if (p.substr(0, 2) == "./") p = p.substr(2); read(p); } continue; }
      size_t e = l.find('='); if (e == std::string::npos) continue; own[l.substr(0, e)] = l.substr(e + 1);
    }
    known.insert(own.begin(), own.end());
  }
};
static void compare(mc::Ctx &cx, FilePropertiesProvider &p, const Props &w, const std::string &ctx) {
  std::set<std::string> names; for (auto &n : p.available_properties()) names.insert(n); cx.step();
  std::string got, want; for (auto &n : names) got += n + "=" + p.get_str(n, "?") + "; "; for (auto &k : w) want += k.first + "=" + k.second + "; ";
  MC_CHECK(cx, got == want, "properties", "read '" << got << "' expected '" << want << "' from " << ctx); MC_LOG(cx, " -> " << got);
  for (std::string k : {"a", "a/b", "b", "c", "d", "", "zz"}) if (!w.count(k)) {
    MC_CHECK(cx, p.get_str(k, "dflt") == "dflt" && p.get_int(k, -3) == -3 && p.get_uint(k, 9) == 9 && p.get_dbl(k, 0.25) == 0.25 && p.get_bool(k, true) && !p.get_bool(k, false), "default", "property '" << k << "' is not given but its default is not used: " << ctx); }
  cx.state(mc::Hash() << got); cx.outcome(mc::Hash() << got);
}
static std::string text(const Ref &r) { std::string s; for (auto &f : r.files) { s += "[" + f.first + ":"; for (auto &l : f.second) s += " '" + l + "'"; s += "] "; } return s; }
MC_SCENARIO(files, 3) {
  Lines al = {"a=1", "a=2", "b=true", "a/b=x=y z", "#a=7", "", "garbage", "<inc1>", "<sub/inc2>", "<missing>", "<inc1", "c=", "<./inc1>", "b=0"}, a1 = {"a=3", "c=5", "<sub/inc2>", "b=false"}, a2 = {"a=4", "d=-2.5e1", "<../inc3>"};
  Ref r; int n = cx.choose(cx.thorough ? 5 : 4, "lines"); Lines m; bool uses = false, uses2 = false; for (int i = 0; i < n; ++i) { m.push_back(cx.pick(al, "line")); uses |= m.back().find("inc1") != std::string::npos; uses2 |= m.back().find("inc2") != std::string::npos; }
  Lines i1, i2; if (uses) { int k = cx.choose(3, "inc1 lines"); for (int i = 0; i < k; ++i) { i1.push_back(cx.pick(a1, "inc1 line")); uses2 |= i1.back().find("inc2") != std::string::npos; } }
  if (uses2) { int k = cx.choose(cx.thorough || n < 3 ? 3 : 2, "inc2 lines"); for (int i = 0; i < k; ++i) i2.push_back(cx.pick(a2, "inc2 line")); }
  r.files = {{"main", m}, {"inc1", i1}, {"sub/inc2", i2}, {"inc3", {"d=9", "e=i n"}}}; bool nl = n && n < 3 ? !cx.flag("no final newline") : true;
  write("main", m, nl); write("inc1", i1, nl); write("sub/inc2", i2); write("inc3", r.files["inc3"]);
  FilePropertiesProvider p; p.append_file_content(dir() + "/main"); r.read("main"); compare(cx, p, r.known, text(r));
}
// several files and direct settings in turns
MC_SCENARIO(histories, 3) {
  Ref r; r.files = {{"f0", {"a=1", "b=true", "<sub/f1>"}}, {"sub/f1", {"a=2", "c=3"}}, {"f2", {"b=false", "c=4", "d=5", "a=6", "a=7"}}, {"f3", {}}}; for (auto &f : r.files) write(f.first, f.second);
  FilePropertiesProvider p; int steps = cx.thorough ? 6 : 5; std::string ctx;
  for (int k = 0; k < steps; ++k) {
    int op = cx.choose(7, "operation"); static const char *fs[] = {"f0", "sub/f1", "f2", "f3", "nofile"};
    if (op < 5) { auto &q = p.append_file_content(dir() + "/" + fs[op]); MC_CHECK(cx, &q == &p, "chaining", "appending a file gives another object"); r.read(fs[op]); ctx += std::string(" read ") + fs[op]; }
    if (op == 5) { std::string v = "s" + std::to_string(k); p.set_property("a", v); r.known["a"] = v; ctx += " set a"; } if (op == 6) { p.set_property("d", "0"); r.known["d"] = "0"; ctx += " set d"; }
    compare(cx, p, r.known, ctx);
  }
}
// every kind of value by every getter
MC_SCENARIO(conversions, 2) {
  struct V { const char *s; int i; unsigned u; double d; bool b; bool num; };
  std::vector<V> vs = {{"0", 0, 0, 0, false, true}, {"1", 1, 1, 1, true, true}, {"false", 0, 0, 0, false, false}, {"true", 0, 0, 0, true, false}, {"42", 42, 42, 42, true, true}, {"010", 10, 10, 10, true, true}, {"0042", 42, 42, 42, true, true}, {"3000000000", 0, 3000000000u, 3e9, true, false}, {"-7", -7, 0, -7, true, true}, {"2.5", 2, 2, 2.5, true, true}, {"-0.125", 0, 0, -0.125, true, true}, {"1e-3", 1, 1, 1e-3, true, true}, {"<infinity>", 0, 0, 0, true, false}, {"a b=c", 0, 0, 0, true, false}, {"FALSE", 0, 0, 0, true, false}};
  auto v = cx.pick(vs, "value"); bool file = cx.flag("file"); int others = cx.choose(3, "others"); FilePropertiesProvider fp; MapPropertiesProvider mp; PropertiesProvider &p = file ? (PropertiesProvider &)fp : mp;
  std::string id = cx.flag("id") ? "slam/scmtch/MC/seed" : "x"; Lines l = {id + "=" + v.s}; if (others > 0) l.push_back(id + "2=77"); if (others > 1) l.insert(l.begin(), "y" + id + "=78");
  if (file) { write("v", l); fp.append_file_content(dir() + "/v"); } else for (auto &s : l) mp.set_property(s.substr(0, s.find('=')), s.substr(s.find('=') + 1));
  std::string str = v.s; cx.step(); cx.outcome(mc::Hash() << str);
  MC_CHECK(cx, p.get_str(id, "q") == str, "string", "'" << str << "' is read as '" << p.get_str(id, "q") << "'");
  MC_CHECK(cx, p.get_bool(id, !v.b) == v.b && p.get_bool(id, v.b) == v.b, "bool", "'" << str << "' is read as " << p.get_bool(id, !v.b));
  if (v.num) { MC_CHECK(cx, p.get_dbl(id, 99) == v.d, "double", "'" << str << "' is read as " << p.get_dbl(id, 99)); MC_CHECK(cx, p.get_int(id, 99) == v.i, "int", "'" << str << "' is read as " << p.get_int(id, 99)); if (v.d >= 0) MC_CHECK(cx, p.get_uint(id, 99) == v.u, "uint", "'" << str << "' is read as " << p.get_uint(id, 99)); }
  if (str == "3000000000") MC_CHECK(cx, p.get_uint(id, 99) == v.u && p.get_dbl(id, 1) == v.d, "uint", "'" << str << "' is read as " << p.get_uint(id, 99));
}
// unusual names of files and properties, taken literally
MC_SCENARIO(odd_names, 3) {
  static const Lines names = {"a b", " a", "a ", "a>b", "a<b", "a>", "a=b", "#a", ".a", "a.b.c", "a,b", "<a>", "a\tb", "'a'", "\"a\"", "\xc3\xa9", "a\\b", "$a", "-a", "*"}, keys = {"k", " k", "k ", "k/l m", "k>", "k<l", "k.#", "", "k\t", "=x", "k\r"};
  auto f = cx.pick(names, "file"), g = cx.pick(names, "included"); if (f == g) cx.prune(); auto k = cx.pick(keys, "key"), v = cx.pick(keys, "value"); bool sub = cx.flag("in a directory"); std::string d = sub ? "d" + g + "/" : "";
  if (sub) mkdir((dir() + "/" + d).c_str(), 0755); Ref r; Lines l1 = {"a=1", "<" + d + g + ">", k + "=" + v}, l2 = {"b=2", "x" + k + "=" + v + v}; r.files = {{f, l1}, {d + g, l2}}; for (auto &w : r.files) write(w.first, w.second);
  FilePropertiesProvider p; p.append_file_content(dir() + "/" + f); r.read(f); compare(cx, p, r.known, text(r)); for (auto &w : r.files) unlink((dir() + "/" + w.first).c_str()); if (sub) rmdir((dir() + "/" + d).c_str());
}
// the configurations that come with the project: every line reaches the reader, whatever file it stands in
MC_SCENARIO(shipped, 1) {
  std::string base = getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo"; Lines fs = {"bag_runner/tiny_mit", "bag_runner/gmapping_mit", "bag_runner/viny_pr2", "bag_runner/viny_mit", "slams/viny_slam_base", "slams/gmapping_base", "slams/tiny_original_cell", "common/bf_m3rsm", "common/hill_climbing_scan_matching", "datasets/in_pr2"};
  std::string f = base + "/config/" + cx.pick(fs, "file") + ".properties"; if (!std::ifstream(f)) return; FilePropertiesProvider p; p.append_file_content(f); std::function<void(std::string)> walk = [&](std::string path) {
    std::ifstream is(path); std::string l; std::string d = path.substr(0, path.rfind('/') + 1);
    while (std::getline(is, l)) { if (l.empty() || l[0] == '#') continue; if (l[0] == '<' && l.back() == '>') { walk(d + l.substr(1, l.size() - 2)); continue; } size_t e = l.find('='); if (e == std::string::npos) continue; cx.step(); cx.outcome(mc::Hash() << l); auto got = p.get_str(l.substr(0, e), "<none>"); MC_CHECK(cx, got == l.substr(e + 1), "shipped", path << ": '" << l << "' is read as '" << got << "'"); } };
  walk(f);
}
// long paths: deep directories, long names, included files beside and above the including one
MC_SCENARIO(long_paths, 2) {
  int levels = cx.pick(std::vector<int>{1, 3, 12}, "directories"), len = cx.pick(std::vector<int>{1, 40, 200}, "name length"), flen = cx.pick(std::vector<int>{1, 60, 240}, "file name length"), how = cx.choose(4, "how"); std::vector<std::string> ds{dir()}; if (levels * (len + 1) + flen > 3500) cx.prune();
  for (int i = 0; i < levels; ++i) { ds.push_back(ds.back() + "/" + std::string(len, char('a' + i))); mkdir(ds.back().c_str(), 0755); } std::string f(flen, 'x'), g(flen, 'y'), d = ds.back(), up; if (how == 2) up = "../"; if (how == 3) for (int i = 0; i < levels; ++i) up += "../"; if (how == 1) up = "./";
  std::string gd = how == 2 ? ds[ds.size() - 2] : how == 3 ? ds[0] : d; { std::ofstream(d + "/" + f) << "a=1\n<" << up << g << ">\nb=2\n"; std::ofstream(gd + "/" + g) << "c=3\nd=4\n"; }
  FilePropertiesProvider p; p.append_file_content(d + "/" + f); std::string got; for (std::string k : {"a", "b", "c", "d"}) got += p.get_str(k, "?"); unlink((d + "/" + f).c_str()); unlink((gd + "/" + g).c_str()); for (int i = levels; i; --i) rmdir(ds[i].c_str());
  cx.step(); cx.nontrivial(); cx.state(mc::Hash() << levels << len << flen << how); cx.outcome(mc::Hash() << levels << len << flen << how); MC_CHECK(cx, got == "1234", "properties", "a file in " << levels << " directories with names of " << len << " that includes another one (" << up << ") is read as " << got << " instead of 1234");
}
// big files: thousands of properties, long lines, includes of includes many levels deep
MC_SCENARIO(big_files, 2) {
  int n = cx.pick(std::vector<int>{50, 400, 3000}, "lines"), len = cx.pick(std::vector<int>{1, 200, 5000}, "value length"), depth = cx.pick(std::vector<int>{0, 1, 9, 30}, "include depth"), where = cx.choose(3, "include at"), dup = cx.choose(2, "repeated"); if (n * len > 2000000) cx.prune(); Ref r;
  for (int f = 0; f <= depth; ++f) { Lines l; int m = f ? 5 : n; auto inc = [&] { if (f < depth) l.push_back("<f" + std::to_string(f + 1) + ">"); }; for (int i = 0; i < m; ++i) { if (i == (where == 0 ? 0 : where == 1 ? m / 2 : m - 1)) inc(); std::string k = i % 5 == 0 ? "shared/k" + std::to_string(i) : "f" + std::to_string(f) + "/k" + std::to_string(dup ? i % (m / 2 + 1) : i); l.push_back(i % 17 == 9 ? "# comment " + k + "=no" : k + "=" + std::string(len, char('a' + (i + f) % 26)) + std::to_string(i)); } r.files["f" + std::to_string(f)] = l; write("f" + std::to_string(f), l, f % 2 == 0); }
  FilePropertiesProvider p; p.append_file_content(dir() + "/f0"); r.read("f0"); cx.step(r.known.size()); std::set<std::string> names; for (auto &k : p.available_properties()) names.insert(k);
  MC_CHECK(cx, names.size() == r.known.size(), "properties", names.size() << " properties were read, " << r.known.size() << " are given"); for (auto &k : r.known) MC_CHECK(cx, p.get_str(k.first, "?") == k.second, "properties", "property '" << k.first << "' is read as '" << p.get_str(k.first, "?").substr(0, 60) << "' instead of '" << k.second.substr(0, 60) << "'");
  for (int f = 0; f <= depth; ++f) unlink((dir() + "/f" + std::to_string(f)).c_str()); cx.nontrivial(); cx.state(mc::Hash() << n << len << depth << where << dup); cx.outcome(mc::Hash() << (uint64_t)r.known.size());
}
