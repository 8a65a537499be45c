// C11: coarse map levels always bound the fine cells they cover
#include "mc.h"
#include <vector>
#include <algorithm>
#include <memory>
#include "common.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/rescalable_caching_grid_map.h"
#include "core/scan_matchers/m3rsm_engine.h"
#include "core/scan_matchers/observation_impact_estimators.h"
using Coord = RegularSquaresGrid::Coord;
struct ValCell : GridCell { // the last observation wins, so the impact may grow and fall
  ValCell(double v = 0.5) : GridCell{Occupancy{v, 1}} {}
  std::unique_ptr<GridCell> clone() const override { return std::unique_ptr<GridCell>(new ValCell(*this)); }
  void operator+=(const AreaOccupancyObservation &a) override { if (!a.occupancy.is_valid()) return; _occupancy = a.occupancy; on_update(); }
  void know() { on_update(); }
};
static int fdiv(int a, int b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
using Ref = std::map<std::pair<int, int>, double>;
template <class M> static void check(mc::Ctx &cx, M &m, const ObservationImpactEstimator &oie, const Ref &ref, double proto) {
  unsigned before = m.scale_id(); m.set_scale_id(0); double s0 = m.scale();
  int w0 = m.width(), h0 = m.height();
  mc::Hash h;
  for (auto &kv : ref) {
    Coord c{kv.first.first, kv.first.second};
    MC_CHECK(cx, mc::near(m[c].occupancy().prob_occ, kv.second), "fine", "finest cell " << c << " reads " << m[c].occupancy().prob_occ << " instead of " << kv.second);
    MC_CHECK(cx, !m[c].is_unknown(), "fine-unknown", "finest cell " << c << " is unknown");
  }
  unsigned n = m.scales_nm(); double prev = s0; std::vector<double> scales{s0};
  for (unsigned id = 1; id < n; ++id) {
    m.set_scale_id(id); double s = m.scale(); int k = 1 << std::min(id, 20u); bool last = id + 1 == n; scales.push_back(s);
    MC_CHECK(cx, prev < s, "levels", "level " << id << " has scale " << s << " after " << prev); prev = s;
    if (!last) MC_CHECK(cx, mc::near(s, s0 * k), "levels", "level " << id << " has scale " << s << " over a finest scale of " << s0);
    else MC_CHECK(cx, std::isinf(s), "levels", "the coarsest level has scale " << s);
    for (auto &kv : ref) {
      Coord cc = last ? Coord{0, 0} : Coord{fdiv(kv.first.first, k), fdiv(kv.first.second, k)};
      MC_CHECK(cx, m.has_cell(cc), "cover", "level " << id << " does not cover finest cell (" << kv.first.first << "," << kv.first.second << ")");
      ValCell fine{kv.second}; double fi = oie.estimate_obstacle_impact(fine), ci = oie.estimate_obstacle_impact(m[cc]);
      MC_CHECK(cx, fi <= ci + 1e-9, "bound", "level " << id << " cell " << cc << " has impact " << ci << " below " << fi << " of the finest cell (" << kv.first.first << "," << kv.first.second << ") inside it");
      h << ci;
    }
  }
  m.set_scale_id(0);
  MC_CHECK(cx, m.width() == w0 && m.height() == h0, "view", "selecting levels changed the size of the finest map");
  // the level nearest to the asked scale from above
  for (double f : {0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 7.0, 16.0, 1000.0, 0.9995, 1.0005, 1.9995, 2.0005, 3.999, 4.001, 8.00001}) {
    m.rescale(f * s0); size_t i = 0; while (scales[i] < f * s0) ++i;
    MC_CHECK(cx, m.scale() == scales[i], "rescale", "rescale(" << f << " finest cells) selects scale " << m.scale() << " instead of " << scales[i]);
  }
  m.set_scale_id(0);
  if (w0 < 12 && h0 < 12) MC_CHECK(cx, m.validate(), "validate", "the map's own validation of its levels fails");
  for (int x = -2; x < 3; ++x) for (int y = -2; y < 3; ++y) if (!ref.count({x, y})) MC_CHECK(cx, m[Coord(x, y)].is_unknown() && m[Coord(x, y)].occupancy().prob_occ == proto, "fine-stray", "never-written finest cell (" << x << "," << y << ") reads " << m[Coord(x, y)].occupancy().prob_occ);
  if (before < m.scales_nm()) m.set_scale_id(before);
  cx.state(h << n << w0 << h0); cx.outcome(h);
}
template <class Back> static void history(mc::Ctx &cx, std::shared_ptr<ObservationImpactEstimator> oie, int w, int ht, double s, int depth, double proto) {
  M3RSMRescalableGridMap<Back> m{oie, std::make_shared<ValCell>(proto), GridMapParams{w, ht, s}}; Ref ref;
  static const std::vector<Coord> cs{{0, 0}, {-1, 0}, {1, -2}, {5, 3}, {-9, -6}, {40, -3}};
  static const std::vector<double> vs{0.9, 0.2, 0.6};
  int n = 1 + cx.choose(depth, "ops");
  for (int i = 0; i < n; ++i) {
    int op = cx.choose(4, "op"); cx.step();
    if (op == 3) { double f = cx.pick(std::vector<double>{2, 1000}, "view"); SafeRescalableMap v{m}; static_cast<GridMap &>(v).rescale(f * s); continue; }
    Coord c = cx.pick(cs, "cell"); double v = cx.pick(vs, "value");
    if (op == 0) { m.update(c, {true, Occupancy{v, 1}, {0, 0}, 1}); ref[{c.x, c.y}] = v; }
    else if (op == 1) { ValCell k{v}; k.know(); m.reset(c, k); ref[{c.x, c.y}] = v; }
    else if (i + 1 < n || cx.thorough) { for (int d = 0; d < 2; ++d) { Coord q{c.x + 3 * d, c.y - d}; m.update(q, {true, Occupancy{v, 1}, {0, 0}, 1}); ref[{q.x, q.y}] = v; } }
    else { m.update(c, {false, Occupancy{1 - v, 1}, {0, 0}, 1}); ref[{c.x, c.y}] = 1 - v; }
    if (i && v != 0.2) cx.nontrivial();
  }
  check(cx, m, *oie, ref, proto);
}
static std::shared_ptr<ObservationImpactEstimator> oie_of(int k) { if (k) return std::make_shared<OccupancyOIE>(); return std::make_shared<DiscrepancyOIE>(); }
MC_SCENARIO(plain_backed, 4) {
  static const std::vector<GridMapParams> ps{{4, 4, 1}, {7, 3, 0.1}, {1, 1, 0.3}, {2, 2, 0.05}}; auto p = cx.pick(ps, "map");
  history<UnboundedPlainGridMap>(cx, oie_of(cx.choose(2, "impact")), p.width_cells, p.height_cells, p.meters_per_cell, cx.thorough ? 3 : 2, 0.5);
}
MC_SCENARIO(tile_backed, 4) {
  static const std::vector<GridMapParams> ps{{4, 4, 1}, {5, 3, 0.1}, {2, 2, 0.05}}; auto p = cx.pick(ps, "map");
  history<UnboundedLazyTiledGridMap>(cx, oie_of(cx.choose(2, "impact")), p.width_cells, p.height_cells, p.meters_per_cell, cx.thorough ? 3 : 2, 0.0);
}
// every cell of a window written in one of the values, after or before the map has grown: all 2x2 and row neighbourhoods
MC_SCENARIO(dense, 3) {
  static const std::vector<double> scales{1, 0.1, 0.05, 0.3}; double s = cx.pick(scales, "scale"); int grow = cx.choose(3, "grow"); auto oie = oie_of(cx.choose(2, "impact"));
  Coord o = cx.pick(std::vector<Coord>{{0, 0}, {-3, -1}, {6, -14}}, "window");
  M3RSMRescalableGridMap<UnboundedPlainGridMap> m{oie, std::make_shared<ValCell>(), GridMapParams{8, 8, s}}; Ref ref;
  auto put = [&](Coord c, double v) { m.update(c, {true, Occupancy{v, 1}, {0, 0}, 1}); ref[{c.x, c.y}] = v; cx.step(); };
  if (grow == 1) { put({-30, 2}, 0.7); put({12, 33}, 0.3); }
  for (int y = 0; y < (cx.thorough ? 3 : 2); ++y) for (int x = 0; x < 3; ++x) { static const std::vector<double> vs{0.1, 0.8, 0.95}; put({o.x + x, o.y + y}, cx.pick(vs, "v")); }
  if (grow == 2) { put({-30, 2}, 0.7); put({12, 33}, 0.3); put({70, -70}, 0.1); }
  cx.nontrivial(); check(cx, m, *oie, ref, 0.5);
}

// values that grow and fall by tiny steps
MC_SCENARIO(small_steps, 3) {
  double d = cx.pick(std::vector<double>{0.02, 1e-3, 1e-5}, "step"), base = cx.pick(std::vector<double>{0, 0.5, 0.9}, "base"), proto = cx.pick(std::vector<double>{0.5, 0.0}, "prototype"); auto oie = oie_of(cx.choose(2, "impact")); Ref ref;
  M3RSMRescalableGridMap<UnboundedPlainGridMap> m{oie, std::make_shared<ValCell>(proto), GridMapParams{6, 6, 0.5}}; static const std::vector<Coord> cs{{0, 0}, {1, 1}, {-2, 1}};
  for (int i = 0; i < (cx.thorough ? 5 : 4); ++i) { Coord c = cs[cx.choose(i ? 3 : 1, "cell")]; double v = base + d * cx.choose(4, "value"); if (i && cx.choose(cx.thorough ? 2 : i == 3 ? 2 : 1, "reset")) { ValCell k{v}; k.know(); m.reset(c, k); } else m.update(c, {true, Occupancy{v, 1}, {0, 0}, 1}); ref[{c.x, c.y}] = v; cx.step(); }
  cx.nontrivial(); check(cx, m, *oie, ref, proto);
}
// maps of hundreds of cells written all over, growing and being rewritten as they go
template <class Back> static void large(mc::Ctx &cx) {
  double s = cx.pick(std::vector<double>{0.05, 0.1, 1}, "scale"); int reach = cx.pick(std::vector<int>{20, 75, 150}, "reach"), shape = cx.choose(5, "writes"), start = cx.choose(2, "start"), views = cx.choose(2, "views"); auto oie = oie_of(cx.choose(2, "impact"));
  M3RSMRescalableGridMap<Back> m{oie, std::make_shared<ValCell>(0.5), GridMapParams{start ? 2 * reach + 20 : 3, start ? 2 * reach + 20 : 2, s}}; Ref ref; int n = cx.thorough ? 400 : 160;
  for (int i = 0; i < n; ++i) {
    Coord c; int q = i % 80;
    if (shape == 0) c = {(i * 37) % (2 * reach) - reach, (i * 53) % (2 * reach) - reach}; // scattered, revisited later
    else if (shape == 1) c = {q * reach / 80, i / 80 - 2};                                   // along a wall, again and again
    else if (shape == 2) c = {-(i * reach) / n, (i * reach) / n};                             // away
    else if (shape == 4) c = {i / 80 - 2, -(q * reach / 80)};                                  // along another wall
    else c = {(i * i) % 7 - 3, (i * 3) % 5 - 2};                                              // in one place
    double v = double((i * 29 + i / 80 * 17) % 97) / 100; if (i >= n / 2) v *= 0.5; // later values are lower
    if (i % 6 == 5) { ValCell k{v}; k.know(); m.reset(c, k); } else m.update(c, {true, Occupancy{v, 1}, {0, 0}, 1});
    ref[{c.x, c.y}] = v; cx.step(); if (views && i % 9 == 4) { SafeRescalableMap w{m}; static_cast<GridMap &>(w).rescale(s * (1 << (i % 6))); }
    if (i % 40 == 39) { cx.nontrivial(); check(cx, m, *oie, Ref(ref), 0.5); }
  }
}
MC_SCENARIO(large_plain, 3) { large<UnboundedPlainGridMap>(cx); }
MC_SCENARIO(large_tiled, 3) { large<UnboundedLazyTiledGridMap>(cx); }

// a level asked for straight after the map has grown, before anything else touches the levels
template <class Back> static void grown_then_rescaled(mc::Ctx &cx) {
  double s = cx.pick(std::vector<double>{0.1, 1}, "scale"); auto oie = oie_of(cx.choose(2, "impact")); Ref ref;
  M3RSMRescalableGridMap<Back> m{oie, std::make_shared<ValCell>(0.5), GridMapParams{4, 3, s}};
  auto put = [&](Coord c, double v, bool r) { if (r) { ValCell k{v}; k.know(); m.reset(c, k); } else m.update(c, {true, Occupancy{v, 1}, {0, 0}, 1}); ref[{c.x, c.y}] = v; cx.step(); };
  for (int r = 0; r < (cx.thorough ? 3 : 2); ++r) {
    put(cx.pick(std::vector<Coord>{{0, 0}, {9, -2}, {-30, 17}, {-3, 70}}, "cell"), cx.pick(std::vector<double>{0.9, 0.3}, "value"), cx.choose(2, "reset"));
    int how = cx.choose(4, "then"); double f = std::vector<double>{0, 2, 16, 1000}[how];
    if (!how) continue;
    m.rescale(f * s); double got = m.scale(); Ref bad;
    for (auto &kv : ref) {
      Coord cc = std::isinf(got) ? Coord{0, 0} : Coord{fdiv(kv.first.first, int(std::lround(got / s))), fdiv(kv.first.second, int(std::lround(got / s)))};
      MC_CHECK(cx, m.has_cell(cc), "cover", "the level of scale " << got << " selected straight after a write does not cover finest cell (" << kv.first.first << "," << kv.first.second << ")");
      ValCell fine{kv.second};
      MC_CHECK(cx, oie->estimate_obstacle_impact(fine) <= oie->estimate_obstacle_impact(m[cc]) + 1e-9, "bound", "the level of scale " << got << " selected straight after a write does not bound finest cell (" << kv.first.first << "," << kv.first.second << ")");
    }
    double best = std::numeric_limits<double>::infinity(); // the nearest scale from above among all levels there are
    for (unsigned id = m.scales_nm(); id-- > 0;) { m.set_scale_id(id); if (m.scale() >= f * s) best = m.scale(); }
    MC_CHECK(cx, got == best, "rescale", "rescale(" << f << " finest cells) straight after a write selects scale " << got << " instead of " << best);
    m.set_scale_id(0); cx.nontrivial();
  }
  check(cx, m, *oie, ref, 0.5);
}
MC_SCENARIO(grown_then_rescaled_plain, 4) { grown_then_rescaled<UnboundedPlainGridMap>(cx); }
MC_SCENARIO(grown_then_rescaled_tiled, 4) { grown_then_rescaled<UnboundedLazyTiledGridMap>(cx); }
