// C25: map dumps show every cell of the map at its place
#include "mc.h"
#include "common.h"
#include <dirent.h>
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/rescalable_caching_grid_map.h"
#include "core/scan_matchers/m3rsm_engine.h"
#include "core/states/laser_scan_grid_world.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "slams/gmapping/gmapping_grid_cell.h"
#include "utils/map_dumpers.h"
using Coord = RegularSquaresGrid::Coord;
struct VCell : GridCell { VCell(double v = 0.5) : GridCell{Occupancy{v, 1}} {} std::unique_ptr<GridCell> clone() const override { return std::unique_ptr<GridCell>(new VCell(*this)); } };
struct Dir { std::string p; Dir() { p = mc::scratch("c25"); if (!mkdtemp(&p[0])) abort(); } std::vector<std::string> files() const { std::vector<std::string> r; DIR *d = opendir(p.c_str()); while (auto e = readdir(d)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(d); std::sort(r.begin(), r.end()); return r; } ~Dir() { for (auto &f : files()) unlink((p + "/" + f).c_str()); rmdir(p.c_str()); } };
struct Pgm { bool ok = false; std::string why; int w = 0, h = 0, max = 0; std::vector<unsigned char> px; };
// reads a binary PGM the way netpbm does
static Pgm read(const std::string &f) {
  Pgm r; std::ifstream in(f, std::ios::binary); std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); size_t i = 0; if (!in.is_open()) { r.why = "no such file"; return r; } if (s.substr(0, 2) != "P5") { r.why = "no P5 magic"; return r; } i = 2;
  auto num = [&](int &n) { size_t b = i; while (i < s.size() && (isspace((unsigned char)s[i]) || s[i] == '#')) { if (s[i] == '#') while (i < s.size() && s[i] != '\n') ++i; else ++i; } if (i == b) return false; b = i; n = 0; while (i < s.size() && isdigit((unsigned char)s[i])) n = 10 * n + (s[i++] - '0'); return i > b; };
  if (!num(r.w) || !num(r.h) || !num(r.max) || i >= s.size() || !isspace((unsigned char)s[i])) { r.why = "bad header"; return r; } ++i; r.px.assign(s.begin() + i, s.end()); r.ok = true; if (r.max != 255) { r.ok = false; r.why = "bad maximal value"; } return r;
}
static double shade(double occ) { return 255 * (1 - (occ == -1 ? 0.5 : std::max(0.0, std::min(1.0, occ)))); }
// value(x, y): the occupancy cell (x, y) should have
template <typename V> static void judge(mc::Ctx &cx, const std::string &file, int w, int h, Coord o, V value, const std::string &ctx) {
  Pgm p = read(file); MC_CHECK(cx, p.ok, "format", "the dump is not a readable PGM (" << p.why << "); " << ctx); MC_CHECK(cx, p.w == w && p.h == h, "size", "the dump of a " << w << "x" << h << " map is " << p.w << "x" << p.h << "; " << ctx);
  MC_CHECK(cx, p.px.size() == size_t(w) * h, "size", "the dump of a " << w << "x" << h << " map has " << p.px.size() << " pixels; " << ctx); mc::Hash hs; hs << w << h;
  for (int r = 0; r < h; ++r) for (int c = 0; c < w; ++c) { int x = c - o.x, y = h - 1 - r - o.y; double v = value(x, y), want = shade(v); int got = p.px[size_t(r) * w + c]; bool exact = want == 0 || want == 255; if (want != 127.5) hs << r << c << got;
    MC_CHECK(cx, exact ? got == want : std::fabs(got - want) <= 1, "pixel", "pixel (" << c << "," << r << ") is " << got << ", but cell (" << x << "," << y << ") of occupancy " << v << " is " << want << "; " << ctx); }
  cx.outcome(hs);
}
static const std::vector<double> Occ = {0, 1, 0.5, -1, 0.3, 0.75}, OccMore = {0, 1, 0.5, -1, 0.25, 0.003, 0.997, 1.5, -0.25};
static void dump(const GridMap &m, const std::string &f) { std::ofstream o(f, std::ios::binary); GridMapToPgmDumber::dump_map(o, m); }
// all contents of all small maps
MC_SCENARIO(contents, 3) {
  int w = 1 + cx.choose(3, "w"), h = 1 + cx.choose(3, "h"); if (w * h > (cx.thorough ? 6 : 4) || w * h == 0) return; int kind = cx.choose(2, "kind"); std::unique_ptr<GridMap> m; GridMapParams gp{w, h, 0.1}; auto proto = std::make_shared<VCell>(0.6);
  if (kind == 0) m.reset(new PlainGridMap{proto, gp}); else m.reset(new UnboundedPlainGridMap{proto, gp}); std::map<std::pair<int, int>, double> ref; Coord o = m->origin(); std::ostringstream os; os << (kind ? "unbounded " : "") << w << "x" << h << " map";
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double v = cx.pick(w * h <= 2 ? OccMore : Occ, "occupancy"); os << " " << v; m->update({x - o.x, y - o.y}, AreaOccupancyObservation{true, Occupancy{v, 1}, {0, 0}, 1}); ref[{x - o.x, y - o.y}] = v; cx.step(); }
  Dir d; MC_LOG(cx, os.str()); dump(*m, d.p + "/m"); judge(cx, d.p + "/m", w, h, o, [&](int x, int y) { return ref.at({x, y}); }, os.str()); mc::Hash hs; for (auto &r : ref) hs << r.second; cx.state(hs << w << h << kind);
}
// all kinds, sizes and origins
MC_SCENARIO(kinds, 3) {
  static const std::vector<std::pair<int, int>> Sizes = {{1, 1}, {1, 5}, {6, 2}, {7, 8}, {13, 4}, {130, 3}, {2, 129}}; static const std::vector<Coord> Spots = {{0, 0}, {-1, 0}, {0, -1}, {5, 3}, {-9, 4}, {3, -20}, {130, -2}, {-131, 129}};
  int kind = cx.choose(6, "kind"); auto sz = cx.pick(Sizes, "size"); auto dflt = cx.pick(std::vector<double>{-1, 0.4}, "default"); GridMapParams gp{sz.first, sz.second, 0.25}; auto proto = std::make_shared<VCell>(dflt); std::unique_ptr<GridMap> m; std::ostringstream os; os << "kind " << kind << " " << sz.first << "x" << sz.second;
  switch (kind) { case 0: m.reset(new PlainGridMap{proto, gp}); break; case 1: m.reset(new UnboundedPlainGridMap{proto, gp}); break; case 2: m.reset(new LazyTiledGridMap{proto, gp}); break; case 3: m.reset(new UnboundedLazyTiledGridMap{proto, gp}); break; case 4: m.reset(new M3RSMRescalableGridMap<UnboundedPlainGridMap>{std::make_shared<OccupancyOIE>(), proto, gp}); break; default: m.reset(new M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>{std::make_shared<OccupancyOIE>(), proto, gp}); }
  std::map<std::pair<int, int>, double> ref; int n = cx.thorough ? 3 : 2; bool grows = kind == 1 || kind >= 3; static const double V[] = {0, 1, 0.25};
  for (int k = 0; k < n; ++k) { auto c = cx.pick(Spots, "cell"); if (!grows && !m->has_cell(c)) { os << " -"; continue; } double v = V[k]; os << " " << c << "=" << v; m->update(c, AreaOccupancyObservation{true, Occupancy{v, 1}, {0, 0}, 1}); ref[{c.x, c.y}] = v; cx.step(); }
  Dir d; std::string ctx = os.str(); MC_LOG(cx, ctx); int w = m->width(), h = m->height(); Coord o = m->origin(); for (auto &r : ref) MC_CHECK(cx, 0 <= r.first.first + o.x && r.first.first + o.x < w && 0 <= r.first.second + o.y && r.first.second + o.y < h, "extent", "a written cell is outside of the map; " << ctx);
  dump(*m, d.p + "/m"); cx.step(); judge(cx, d.p + "/m", w, h, o, [&](int x, int y) { auto i = ref.find({x, y}); return i == ref.end() ? dflt : i->second; }, ctx); cx.state(mc::Hash() << w << h << o.x << o.y << kind << dflt);
}
// coarser levels of a rescalable map
MC_SCENARIO(levels, 3) {
  int w = cx.pick(std::vector<int>{3, 8, 21}, "w"), h = cx.pick(std::vector<int>{2, 9, 16}, "h"); M3RSMRescalableGridMap<UnboundedPlainGridMap> m{std::make_shared<OccupancyOIE>(), std::make_shared<VCell>(-1), GridMapParams{w, h, 0.5}}; std::ostringstream os; os << w << "x" << h;
  for (int k = 0; k < 2; ++k) { auto c = cx.pick(std::vector<Coord>{{0, 0}, {1, -1}, {-3, 2}, {20, 20}}, "cell"); m.update(c, AreaOccupancyObservation{true, Occupancy{k ? 0.75 : 1, 1}, {0, 0}, 1}); os << " " << c; cx.step(); }
  unsigned id = cx.choose(m.scales_nm(), "level"); m.set_scale_id(id); os << " level " << id; Dir d; MC_LOG(cx, os.str()); dump(m, d.p + "/m"); judge(cx, d.p + "/m", m.width(), m.height(), m.origin(), [&](int x, int y) { return m[{x, y}].occupancy().prob_occ; }, os.str()); cx.state(mc::Hash() << w << h << id << m.width());
}
// unknown cells of the shipped cell kind and observed ones
MC_SCENARIO(gmapping_cells, 1) {
  UnboundedPlainGridMap m{std::make_shared<GmappingBaseCell>(), GridMapParams{3, 2, 1}}; std::map<std::pair<int, int>, std::pair<int, int>> n; std::ostringstream os;
  for (int k = 0; k < (cx.thorough ? 6 : 4); ++k) { auto c = cx.pick(std::vector<Coord>{{0, 0}, {-1, -1}, {1, 0}}, "cell"); bool occ = cx.flag("occupied"); os << c << (occ ? "+ " : "- "); m.update(c, AreaOccupancyObservation{occ, Occupancy{occ ? 1.0 : 0.0, 1}, {0, 0}, 1}); auto &e = n[{c.x, c.y}]; e.first += occ; e.second++; cx.step(); }
  Dir d; MC_LOG(cx, os.str()); dump(m, d.p + "/m"); judge(cx, d.p + "/m", m.width(), m.height(), m.origin(), [&](int x, int y) { auto i = n.find({x, y}); return i == n.end() ? -1.0 : double(i->second.first) / i->second.second; }, os.str()); mc::Hash hs; for (auto &e : n) hs << e.first.first << e.second.first << e.second.second; cx.state(hs);
}
// sequences of dumps: every notification leaves its own image, earlier ones stay as they were
struct W : LaserScanGridWorld { UnboundedPlainGridMap m; W(int w = 3, int h = 3) : m{std::make_shared<VCell>(-1), GridMapParams{w, h, 1}} {} const GridMap &map() const override { return m; } using LaserScanGridWorld::map; void handle_observation(TransformedLaserScan &) override { notify(); } void notify() { notify_with_map(map()); } };
MC_SCENARIO(sequences, 3) {
  Dir d; static const std::vector<std::string> Names = {"map", "map_1", "x.y"}; auto a = std::make_shared<GridMapToPgmDumber>(d.p + "/" + Names[0]); std::shared_ptr<GridMapToPgmDumber> b; std::string bn; auto size = cx.pick(std::vector<std::pair<int, int>>{{3, 3}, {1, 4}, {5, 1}, {1, 1}}, "size"); W w{size.first, size.second}; w.subscribe_map(a);
  typedef std::map<std::pair<int, int>, double> Content; struct Snap { int w, h; Coord o; Content c; }; Content now; std::map<std::string, std::vector<Snap>> seq; std::ostringstream os; int depth = cx.thorough ? 6 : 5; seq[Names[0]];
  for (int k = 0; k < depth; ++k) {
    int op = cx.choose(b ? 4 : 5, "op"); auto snap = [&](const std::string &n) { seq[n].push_back({w.m.width(), w.m.height(), w.m.origin(), now}); };
    if (op == 0) { os << " notify"; w.notify(); snap(Names[0]); if (b) snap(bn); } else if (op == 1) { os << " write"; Coord c{k % 3, -(k % 2)}; double v = 0.125 * (k + 1); w.m.update(c, AreaOccupancyObservation{true, Occupancy{v, 1}, {0, 0}, 1}); now[{c.x, c.y}] = v; } else if (op == 2) { os << " grow"; Coord c{k % 2 ? 4 + k : -3 - k, 0}; w.m.update(c, AreaOccupancyObservation{true, Occupancy{1, 1}, {0, 0}, 1}); now[{c.x, c.y}] = 1; }
    else if (op == 3) { os << " dump"; a->on_map_update(w.m); snap(Names[0]); } else { bn = Names[1 + cx.choose(2, "second dumper")]; os << " second dumper " << bn; b = std::make_shared<GridMapToPgmDumber>(d.p + "/" + bn); w.subscribe_map(b); seq[bn]; }
    cx.step(); size_t total = 0; for (auto &s : seq) { total += s.second.size(); } MC_CHECK(cx, d.files().size() == total, "overwritten", d.files().size() << " images after " << total << " dumps:" << os.str());
  }
  MC_LOG(cx, os.str()); mc::Hash hs; for (auto &s : seq) { hs << s.first << int(s.second.size()); for (size_t i = 0; i < s.second.size(); ++i) { auto &p = s.second[i]; judge(cx, d.p + "/" + s.first + "_" + std::to_string(i) + ".pgm", p.w, p.h, p.o, [&](int x, int y) { auto j = p.c.find({x, y}); return j == p.c.end() ? -1 : j->second; }, "image " + std::to_string(i) + " of " + s.first + ":" + os.str()); } } cx.state(hs);
}
// big maps of all kinds, filled with a pattern of all shades
MC_SCENARIO(big_maps, 3) {
  static const std::vector<std::pair<int, int>> Sizes = {{300, 200}, {129, 257}, {1, 400}, {513, 2}}, More = {{300, 200}, {129, 257}, {1, 400}, {513, 2}, {640, 480}, {1000, 37}, {255, 255}};
  int kind = cx.choose(6, "kind"); auto sz = cx.pick(cx.thorough ? More : Sizes, "size"); GridMapParams gp{sz.first, sz.second, 0.1}; auto proto = std::make_shared<VCell>(-1); std::unique_ptr<GridMap> m; int sx = cx.pick(std::vector<int>{1, 3, 7}, "x stride"), sy = cx.pick(std::vector<int>{1, 5}, "y stride"); std::ostringstream os; os << "kind " << kind << " " << sz.first << "x" << sz.second << " strides " << sx << "," << sy;
  switch (kind) { case 0: m.reset(new PlainGridMap{proto, gp}); break; case 1: m.reset(new UnboundedPlainGridMap{proto, gp}); break; case 2: m.reset(new LazyTiledGridMap{proto, gp}); break; case 3: m.reset(new UnboundedLazyTiledGridMap{proto, gp}); break; case 4: m.reset(new M3RSMRescalableGridMap<UnboundedPlainGridMap>{std::make_shared<OccupancyOIE>(), proto, gp}); break; default: m.reset(new M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>{std::make_shared<OccupancyOIE>(), proto, gp}); }
  std::map<std::pair<int, int>, double> ref; Coord o = m->origin(); for (int y = 0; y < sz.second; y += sy) for (int x = 0; x < sz.first; x += sx) { double v = (x * 7 + y * 13 + x * y % 5) % 101 / 100.0; Coord c{x - o.x, y - o.y}; m->update(c, AreaOccupancyObservation{true, Occupancy{v, 1}, {0, 0}, 1}); ref[{c.x, c.y}] = v; }
  Dir d; std::string ctx = os.str(); MC_LOG(cx, ctx); Coord o2 = m->origin(); int w = m->width(), h = m->height(); MC_CHECK(cx, w >= sz.first && h >= sz.second, "extent", "the map has shrunk to " << w << "x" << h << "; " << ctx);
  dump(*m, d.p + "/m"); cx.step(); judge(cx, d.p + "/m", w, h, o2, [&](int x, int y) { auto i = ref.find({x, y}); return i == ref.end() ? -1 : i->second; }, ctx); cx.state(mc::Hash() << w << h << kind << sx << sy);
}
// long sequences of dumps while the map grows
MC_SCENARIO(long_sequences, 2) {
  Dir d; auto a = std::make_shared<GridMapToPgmDumber>(d.p + "/map"), b = std::make_shared<GridMapToPgmDumber>(d.p + "/map_1"); W w; w.subscribe_map(a); w.subscribe_map(b); int n = cx.thorough ? 1100 : 280, every = cx.pick(std::vector<int>{1, 7, 40}, "grows every"); typedef std::map<std::pair<int, int>, double> Content; struct Snap { int w, h; Coord o; Content c; }; std::vector<Snap> seq; Content now;
  for (int k = 0; k < n; ++k) { Coord c{k % every ? k % 3 - 1 : (k % 2 ? 1 : -1) * (k / every) % 30, (k / 2) % 3 - 1}; double v = k % 101 / 100.0; w.m.update(c, AreaOccupancyObservation{true, Occupancy{v, 1}, {0, 0}, 1}); now[{c.x, c.y}] = v; w.notify(); cx.step(); seq.push_back({w.m.width(), w.m.height(), w.m.origin(), now}); }
  MC_CHECK(cx, int(d.files().size()) == 2 * n, "overwritten", d.files().size() << " images after " << n << " dumps by two dumpers");
  for (const char *name : {"map_", "map_1_"}) for (int i = 0; i < n; ++i) { auto &p = seq[i]; judge(cx, d.p + "/" + name + std::to_string(i) + ".pgm", p.w, p.h, p.o, [&](int x, int y) { auto j = p.c.find({x, y}); return j == p.c.end() ? -1 : j->second; }, "image " + std::to_string(i) + " of " + name); } cx.state(mc::Hash() << every << n);
}
