// C27: map primitives are stamped onto a map exactly where asked
#include "mc.h"
#include "common.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "utils/data_generation/grid_map_patcher.h"
#include "utils/data_generation/map_primitives.h"
using Coord = RegularSquaresGrid::Coord; typedef std::map<std::pair<int, int>, double> Ref;
// every write is seen: the value is folded, the number of writes is kept as the estimation quality
struct FCell : GridCell { FCell() : GridCell{Occupancy{0.5, 0}} {} std::unique_ptr<GridCell> clone() const override { return std::unique_ptr<GridCell>(new FCell(*this)); }
  void operator+=(const AreaOccupancyObservation &a) override { _occupancy.prob_occ = 0.5 * _occupancy.prob_occ + 0.5 * a.occupancy.prob_occ * a.quality * a.occupancy.estimation_quality; _occupancy.estimation_quality += 1; on_update(); } };
struct Shape { std::vector<std::string> rows; };
static std::unique_ptr<GridMap> make(int kind) { auto p = std::make_shared<FCell>(); GridMapParams g{9, 9, 0.5}; if (kind == 0) return std::unique_ptr<GridMap>(new UnboundedPlainGridMap{p, g}); if (kind == 1) return std::unique_ptr<GridMap>(new UnboundedLazyTiledGridMap{p, g}); return std::unique_ptr<GridMap>(new PlainGridMap{p, GridMapParams{120, 120, 0.5}}); }
struct Want { std::map<std::pair<int, int>, std::pair<double, int>> c; void stamp(const std::vector<std::string> &rows, Coord o, int wz, int hz) { for (size_t r = 0; r < rows.size(); ++r) for (size_t k = 0; k < rows[r].size(); ++k) for (int i = 0; i < hz; ++i) for (int j = 0; j < wz; ++j) { auto &e = c.insert({{o.x + int(k) * wz + j, o.y - int(r) * hz - i}, {0.5, 0}}).first->second; e.first = 0.5 * e.first + (rows[r][k] == ' ' ? 0 : 0.5); e.second++; } } };
static Coord centred(const std::vector<std::string> &rows, int wz, int hz) { int w = 0; for (auto &r : rows) w = std::max<int>(w, r.size()); return {-(w * wz / 2), int(rows.size()) * hz / 2}; }
static void judge(mc::Ctx &cx, const GridMap &m, const Want &w, const std::string &ctx) {
  int x0 = 0, x1 = 0, y0 = 0, y1 = 0; for (auto &e : w.c) { x0 = std::min(x0, e.first.first); x1 = std::max(x1, e.first.first); y0 = std::min(y0, e.first.second); y1 = std::max(y1, e.first.second); } mc::Hash h;
  for (int x = x0 - 4; x <= x1 + 4; ++x) for (int y = y0 - 4; y <= y1 + 4; ++y) { Coord c{x, y}; if (!m.has_cell(c)) continue; auto &o = m[c].occupancy(); auto i = w.c.find({x, y}); double v = i == w.c.end() ? 0.5 : i->second.first; int n = i == w.c.end() ? 0 : i->second.second;
    MC_CHECK(cx, mc::near(o.prob_occ, v) && o.estimation_quality == n, i == w.c.end() ? "touched" : "stamped", "cell " << c << " holds " << o.prob_occ << " after " << o.estimation_quality << " writes instead of " << v << " after " << n << "; " << ctx); if (n) h << x << y << v; }
  cx.state(h); cx.outcome(h);
}
static std::string show(const std::vector<std::string> &r) { std::string s; for (auto &x : r) s += "\"" + x + "\" "; return s; }
static std::string text(const std::vector<std::string> &rows, int end) { std::string s; for (size_t i = 0; i < rows.size(); ++i) { s += rows[i]; if (i + 1 < rows.size() || end) s += "\n"; } if (end == 2) s += "\n++\n+ "; return s; }
static void row(mc::Ctx &cx, std::vector<std::string> &rows, int maxlen, const std::string &alphabet) { int n = 1 + cx.choose(maxlen, "length"); std::string s; for (int i = 0; i < n; ++i) s += alphabet[cx.choose(alphabet.size(), "character")]; rows.push_back(s); }
static const std::vector<Coord> Off = {{0, 0}, {3, -2}, {-7, 5}}, OffMore = {{0, 0}, {1, 0}, {0, 1}, {-1, -1}, {4, 9}, {-40, 30}, {130, -129}};
// all small rasters (ragged ones included), ends of text, offsets, factors
MC_SCENARIO(rasters, 3) {
  int n = cx.choose(4, "rows"); std::vector<std::string> rows; for (int i = 0; i < n; ++i) row(cx, rows, n < 3 ? 3 : 2, n < 3 ? " +x" : " +"); int end = cx.choose(3, "end"), wz = 1 + cx.choose(n < 3 ? 3 : 2, "width factor"), hz = 1 + cx.choose(n < 3 ? 3 : 2, "height factor"); bool aut = cx.flag("centred"); if (!cx.thorough && n == 2 && (wz * hz == 6 || (wz == hz && wz > 1) )) return; Coord o = aut ? centred(rows, wz, hz) : cx.pick(Off, "offset"); auto m = make(0); Want w; w.stamp(rows, o, wz, hz);
  std::istringstream in(text(rows, end)); GridMapPatcher p; if (aut) p.apply_text_raster(*m, in, wz, hz); else p.apply_text_raster(*m, in, o, wz, hz); cx.step(); std::ostringstream os; os << "raster " << show(rows) << "end " << end << " x" << wz << "," << hz << (aut ? " centred" : " at ") << o; MC_LOG(cx, os.str()); judge(cx, *m, w, os.str());
}
// the default factors, all map kinds, far offsets
MC_SCENARIO(places, 2) {
  int kind = cx.choose(3, "map"); static const std::vector<std::vector<std::string>> Rs = {{"+"}, {"+ +", " x"}, {"++++", "+", "   ", "# #"}, {" "}}; auto &rows = cx.pick(Rs, "raster"); int api = cx.choose(3, "call"); Coord o = api ? centred(rows, 1, 1) : cx.pick(OffMore, "offset"); if (kind == 2 && (o.x > 40 || o.x < -50)) return; auto m = make(kind); Want w; GridMapPatcher p; std::ostringstream os; os << "map " << kind << " raster " << show(rows) << " at " << o;
  std::istringstream in(text(rows, 1)); if (api == 0) p.apply_text_raster(*m, in, o); else if (api == 1) p.apply_text_raster(*m, in); else { o = centred(rows, 5, 2); p.apply_text_raster(*m, in, 5, 2); } w.stamp(rows, o, api == 2 ? 5 : 1, api == 2 ? 2 : 1); cx.step(); MC_LOG(cx, os.str()); judge(cx, *m, w, os.str());
}
// consecutive applications of one patcher
MC_SCENARIO(sequences, 3) {
  auto m = make(cx.choose(2, "map")); GridMapPatcher p; Want w; std::ostringstream os; int n = cx.thorough ? 4 : 3; static const std::vector<std::vector<std::string>> Rs = {{"+ "}, {" +", "+ ", "+++"}, {}, {"x    x"}};
  for (int k = 0; k < n; ++k) { auto &rows = cx.pick(Rs, "raster"); int how = cx.choose(5, "how"); Coord o = how == 1 ? Coord{1, 1} : how == 2 ? Coord{-2, 0} : Coord{0, 0}; int wz = how == 2 || how == 4 ? 2 : 1, hz = how == 4 ? 3 : 1; if (how >= 3) o = centred(rows, wz, hz); os << " | " << show(rows) << "x" << wz << "," << hz << " at " << o; std::istringstream in(text(rows, k % 2)); if (how >= 3) p.apply_text_raster(*m, in, wz, hz); else p.apply_text_raster(*m, in, o, wz, hz); w.stamp(rows, o, wz, hz); cx.step(); judge(cx, *m, w, os.str()); }
  MC_LOG(cx, os.str());
}
// the dead end ("cecum"): a wall on the bounded side and on both adjacent sides, open opposite to it
MC_SCENARIO(primitives, 2) {
  typedef CecumTextRasterMapPrimitive C; typedef C::BoundPosition B; int N = cx.thorough ? 60 : 22, W = 1 + cx.choose(N, "w"), H = 1 + cx.choose(N, "h"), b = cx.choose(5, "bound"); B bp = b == 0 || b == 4 ? B::Top : b == 1 ? B::Bot : b == 2 ? B::Left : B::Right; C c = b == 4 ? C{W, H} : C{W, H, bp}; std::ostringstream os; os << W << "x" << H << " bounded at " << b;
  std::vector<std::string> rows; for (int r = 0; r < H; ++r) { std::string s; for (int k = 0; k < W; ++k) { bool l = k == 0, rt = k == W - 1, t = r == 0, bt = r == H - 1; bool occ = bp == B::Top ? l || rt || t : bp == B::Bot ? l || rt || bt : bp == B::Left ? l || t || bt : rt || t || bt; s += occ ? '+' : ' '; } rows.push_back(s); }
  std::string ctx = os.str(); MC_LOG(cx, ctx); MC_CHECK(cx, c.width() == W && c.height() == H, "primitive-size", "a cecum " << ctx << " says it is " << c.width() << "x" << c.height());
  for (int again = 0; again < 2; ++again) { auto &in = c.to_stream(); std::vector<std::string> got; std::string s; while (std::getline(in, s) && !s.empty()) got.push_back(s); cx.step(); MC_CHECK(cx, got.size() == rows.size(), "primitive-size", "a cecum " << ctx << " has " << got.size() << " rows"); for (int r = 0; r < H; ++r) { std::string g = got[r]; for (auto &ch : g) if (ch != ' ') ch = '+'; MC_CHECK(cx, g == rows[r], "primitive-shape", "row " << r << " of a cecum " << ctx << " is \"" << g << "\" instead of \"" << rows[r] << "\"" << (again ? " when read again" : "")); } }
  auto m = make(0); int wz = 1 + cx.choose(2, "width factor"), hz = 1 + cx.choose(2, "height factor"); bool aut = cx.flag("centred"); Coord o = aut ? centred(rows, wz, hz) : Coord{2, -3}; GridMapPatcher p; if (aut) p.apply_text_raster(*m, c.to_stream(), wz, hz); else p.apply_text_raster(*m, c.to_stream(), o, wz, hz); Want w; w.stamp(rows, o, wz, hz); judge(cx, *m, w, ctx);
  // the announced free space is free, and complete when there is an inside at all
  int in = 0, freec = 0; for (auto &r : rows) for (char ch : r) freec += ch == ' '; for (auto &fs : c.free_space()) for (int r = 0; r < H; ++r) for (int k = 0; k < W; ++k) { bool cov = fs.left() < k + 0.5 && k + 0.5 < fs.right() && fs.bot() < -r + 0.5 && -r + 0.5 < fs.top(); if (!cov) continue; ++in; MC_CHECK(cx, rows[r][k] == ' ', "free-space", "the free space " << fs << " of a cecum " << ctx << " covers the wall at row " << r << " column " << k); }
  for (auto &fs : c.free_space()) MC_CHECK(cx, fs.area() == 0 || (fs.left() >= 0 && fs.right() <= W && fs.bot() >= -H + 1 && fs.top() <= 1), "free-space", "the free space " << fs << " of a cecum " << ctx << " sticks out"); if (W > 2 && H > 2) MC_CHECK(cx, in == freec, "free-space", "the free space of a cecum " << ctx << " covers " << in << " of " << freec << " free cells");
}
// big rasters with all factors up to 10
MC_SCENARIO(big_rasters, 2) {
  static const std::vector<std::pair<int, int>> Sizes = {{100, 80}, {257, 3}, {2, 300}, {64, 64}}; auto sz = cx.pick(Sizes, "size"); int ragged = cx.choose(3, "ragged"), wz = cx.pick(cx.thorough ? std::vector<int>{1, 2, 3, 5, 7, 10} : std::vector<int>{1, 3, 10}, "width factor"), hz = cx.pick(cx.thorough ? std::vector<int>{1, 2, 3, 4, 9, 10} : std::vector<int>{1, 2, 7}, "height factor"), kind = cx.choose(2, "map"); if (!cx.thorough && wz * hz > 20 && sz.first * sz.second > 1000 && kind) return; bool aut = cx.flag("centred");
  std::vector<std::string> rows; for (int r = 0; r < sz.second; ++r) { int len = ragged == 0 ? sz.first : ragged == 1 ? 1 + (r * 37) % sz.first : sz.first - std::min(sz.first - 1, r % 17); std::string t; for (int k = 0; k < len; ++k) t += " +x#1"[(k * 3 + r * 7 + k * r) % 5]; rows.push_back(t); }
  Coord o = aut ? centred(rows, wz, hz) : Coord{-31, 17}; auto m = make(kind); Want w; w.stamp(rows, o, wz, hz); std::istringstream in(text(rows, 1)); GridMapPatcher p; if (aut) p.apply_text_raster(*m, in, wz, hz); else p.apply_text_raster(*m, in, o, wz, hz); cx.step();
  std::ostringstream os; os << "a raster of " << sz.second << " rows of up to " << sz.first << " characters (raggedness " << ragged << ") x" << wz << "," << hz << (aut ? " centred" : " at ") << o << " on map " << kind; MC_LOG(cx, os.str()); judge(cx, *m, w, os.str());
}
// long sequences of applications of one patcher
MC_SCENARIO(long_sequences, 3) {
  cx.periodic(4, 4, 2); auto m = make(cx.choose(2, "map")); GridMapPatcher p; Want w; int n = cx.thorough ? 200 : 40; static const std::vector<std::vector<std::string>> Rs = {{"+ "}, {" +", "+ ", "+++"}, {}, {"x    x"}};
  for (int k = 0; k < n; ++k) { auto &rows = cx.pick(Rs, "raster"); int how = cx.choose(5, "how"); Coord o = how == 1 ? Coord{k % 9, 1} : how == 2 ? Coord{-2, k % 5} : Coord{0, 0}; int wz = how == 2 || how == 4 ? 2 : 1, hz = how == 4 ? 3 : 1; if (how >= 3) o = centred(rows, wz, hz); std::istringstream in(text(rows, k % 2)); if (how >= 3) p.apply_text_raster(*m, in, wz, hz); else p.apply_text_raster(*m, in, o, wz, hz); w.stamp(rows, o, wz, hz); cx.step(); }
  judge(cx, *m, w, std::to_string(n) + " applications");
}
