// C16: point observation probabilities follow their documented rule
#include "mc.h"
#include <vector>
#include <algorithm>
#include <memory>
#include <numeric>
#include "common.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/rescalable_caching_grid_map.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "slams/gmapping/gmapping_occupancy_observation_pe.h"
#include "slams/gmapping/gmapping_grid_cell.h"
using Coord = RegularSquaresGrid::Coord;
struct ValCell : GridCell {
  ValCell() : GridCell{Occupancy{0.5, 1}} {}
  std::unique_ptr<GridCell> clone() const override { return std::unique_ptr<GridCell>(new ValCell(*this)); }
  void operator+=(const AreaOccupancyObservation &a) override { _occupancy = a.occupancy; on_update(); }
};
using Vals = std::map<std::pair<int, int>, double>;
struct Area { double x, y, hx, hy; };
struct Q { double ox, oy, occ; Area a; };
enum { OBSTACLE, MAXI, MEAN, OVERLAP };
static std::shared_ptr<OccupancyObservationProbabilityEstimator> mk(int k, bool disc) {
  std::shared_ptr<ObservationImpactEstimator> o; if (disc) o = std::make_shared<DiscrepancyOIE>(); else o = std::make_shared<OccupancyOIE>();
  if (k == OBSTACLE) return std::make_shared<ObstacleBasedOccupancyObservationPE>(o); if (k == MAXI) return std::make_shared<MaxOccupancyObservationPE>(o);
  if (k == MEAN) return std::make_shared<MeanOccupancyObservationPE>(o); return std::make_shared<OverlapWeightedOccupancyObservationPE>(o);
}
static double want(int k, bool disc, const Vals &v, double sc, const Q &q) {
  auto impact = [&](int x, int y) { auto it = v.find({x, y}); double c = it == v.end() ? 0.5 : it->second; return disc ? 1 - std::fabs(c - q.occ) : c; };
  if (k == OBSTACLE) return impact(std::floor(q.ox / sc), std::floor(q.oy / sc));
  double l = q.a.x - q.a.hx, r = q.a.x + q.a.hx, b = q.a.y - q.a.hy, t = q.a.y + q.a.hy, m = 0, s = 0, w = 0;
  for (int x = std::floor(l / sc); x <= std::floor(r / sc); ++x) for (int y = std::floor(b / sc); y <= std::floor(t / sc); ++y) {
    double i = impact(x, y), g = 1; m = std::max(m, i);
    if (k == OVERLAP) { double ww = std::min(r, (x + 1) * sc) - std::max(l, x * sc), hh = std::min(t, (y + 1) * sc) - std::max(b, y * sc); g = (q.a.hx > 0 ? ww / (r - l) : 1) * (q.a.hy > 0 ? hh / (t - b) : 1); }
    s += i * g; w += g;
  }
  return k == MAXI ? m : s / w;
}
static double ask(const OccupancyObservationProbabilityEstimator &e, const GridMap &m, const Q &q) {
  AreaOccupancyObservation o{true, {q.occ, 1}, {q.ox, q.oy}, 1}; return e.probability(o, LightWeightRectangle{q.a.y - q.a.hy, q.a.y + q.a.hy, q.a.x - q.a.hx, q.a.x + q.a.hx}, m);
}
static void judge(mc::Ctx &cx, const char *what, double p, double w, const Q &q, int k) {
  MC_LOG(cx, " " << what << "=" << p);
  MC_CHECK(cx, mc::near(p, w), what, "estimator " << k << " of obstacle (" << q.ox << "," << q.oy << ") occupancy " << q.occ << " area (" << q.a.x << "," << q.a.y << ")+-(" << q.a.hx << "," << q.a.hy << "): " << p << ", expected " << w);
  MC_CHECK(cx, p >= -1e-12 && p <= 1 + 1e-12, "range", p << " is not a probability"); cx.step(); cx.outcome(mc::Hash() << p << k);
}
static const std::vector<double> Occ = {0, 0.3, 1, 0.85};
// all contents of a 2x2 block around a lattice of areas, two estimators in turns, content changes in between
MC_SCENARIO(area_rules, 5) {
  int k = cx.choose(4, "estimator"); bool disc = cx.flag("discrepancy"); int mk_ = cx.choose(cx.thorough ? 3 : 2, "map"); double sc = cx.flag("scale") ? 0.5 : 1;
  GridMapParams gp{4, 4, sc}; std::shared_ptr<GridMap> map; auto c = std::make_shared<ValCell>();
  if (mk_ == 0) map = std::make_shared<UnboundedPlainGridMap>(c, gp); if (mk_ == 1) map = std::make_shared<UnboundedLazyTiledGridMap>(c, gp); if (mk_ == 2) map = std::make_shared<PlainGridMap>(c, GridMapParams{10, 10, sc});
  auto e = mk(k, disc); Vals v; std::vector<Coord> cells = {{0, 0}, {-1, 0}, {0, -1}, {-1, -1}};
  auto write = [&](int i, double o) { map->update(cells[i], AreaOccupancyObservation{true, {o, 1}, {0, 0}, 1}); v[{cells[i].x, cells[i].y}] = o; };
  for (int i = 0; i < 4; ++i) { int o = cx.choose(cx.thorough ? 4 : 3, "content"); if (o) write(i, Occ[cx.thorough ? o - 1 : 2 * o - 1]); }
  std::vector<Area> as = {{0.3, 0.3, 0, 0}, {-0.2, 0.4, 0, 0}, {0.3, 0.3, 0.1, 0.2}, {0.1, 0.2, 0.3, 0.4}, {0.25, -0.35, 0.55, 0.1}, {0.05, 0.05, 0.9, 0.7}, {-0.3, -0.1, 1.1, 1.3}, {0.1, 0.4, 0.4, 0}, {-0.4, 0.15, 0, 0.33}};
  for (int s = 0; s < 2; ++s) {
    Area a = as[cx.choose(s ? 3 : as.size(), "area")]; for (double *d : {&a.x, &a.y, &a.hx, &a.hy}) *d *= sc;
    Q q{a.x, a.y, cx.flag("weak") ? 0.6 : 1, a}; judge(cx, "rule", ask(*e, *map, q), want(k, disc, v, sc, q), q, k);
    if (!s) { int o = cx.choose(3, "change"); if (o) write(o, 0.45); }
  }
}
// an area at the obstacle and away from it: the obstacle estimator looks at the obstacle, the others at the area
MC_SCENARIO(obstacle_vs_area, 3) {
  int k = cx.choose(4, "estimator"); bool disc = cx.flag("discrepancy"); GridMapParams gp{4, 4, 1}; UnboundedPlainGridMap map{std::make_shared<ValCell>(), gp}; Vals v; int values = cx.choose(3, "values"); // spread, nearly full, nearly empty
  for (int x = -2; x < 3; ++x) for (int y = -2; y < 3; ++y) { double o = ((x * 7 + y * 3 + 40) % 11) / 10.0; if (values) o = (values == 1 ? 0.99 : 0) + o / 100; map.update({x, y}, AreaOccupancyObservation{true, {o, 1}, {0, 0}, 1}); v[{x, y}] = o; }
  std::vector<double> pos = {-1.7, -0.4, 0.3, 1.45}; auto e = mk(k, disc);
  for (int s = 0; s < 2; ++s) { double hx = std::vector<double>{0, 0.15, 0.8}[cx.choose(3, "hx")], hy = std::vector<double>{0, 0.12, 1.3}[cx.choose(3, "hy")];
    if (s) { hx = hy = 0.15; }
    Q q{cx.pick(pos, "ox"), cx.pick(pos, "oy"), 1, {cx.pick(pos, "ax"), cx.pick(pos, "ay"), hx, hy}}; judge(cx, "rule", ask(*e, map, q), want(k, disc, v, 1, q), q, k); if (!cx.thorough) break; }
}
// ---------------------------------------------------------------- GMapping: the best match in a window of sufficiently full cells
struct GRef { int hits = 0, tries = 0; double p = -1, x = 0, y = 0; void add(bool occ, double q, double ox, double oy) { ++tries; double a = occ ? q : 0; p = (p * (tries - 1) + a) / tries; if (!occ) return; ++hits; x = (x * (hits - 1) + ox) / hits; y = (y * (hits - 1) + oy) / hits; } };
MC_SCENARIO(gmapping_window, 5) {
  const double Sc = 0.25; int win = cx.choose(3, "window"); double th = std::vector<double>{0.1, 0.6}[cx.choose(2, "threshold")]; bool tiled = cx.flag("tiled"); std::vector<std::shared_ptr<GridMap>> maps; std::vector<std::map<std::pair<int, int>, GRef>> refs(2);
  for (int i = 0; i < 2; ++i) { GridMapParams gp{6, 6, Sc}; auto c = std::make_shared<GmappingBaseCell>(); if (tiled) maps.push_back(std::make_shared<UnboundedLazyTiledGridMap>(c, gp)); else maps.push_back(std::make_shared<UnboundedPlainGridMap>(c, gp)); }
  GmappingOccupancyObservationPE e(th, win);
  auto add = [&](int m, int x, int y, bool occ, double ox, double oy) { ox *= Sc; oy *= Sc; maps[m]->update({x, y}, AreaOccupancyObservation{occ, {occ ? 0.9 : 0.1, 1}, {ox, oy}, 1}); refs[m][{x, y}].add(occ, 0.9, ox, oy); };
  int steps = cx.thorough ? 4 : 3;
  for (int s = 0; s < steps; ++s) {
    int op = cx.choose(s == 0 ? 6 : 7, "write"); int m = 0;
    if (op == 1) add(m, 0, 0, true, 0.5, 0.5); if (op == 2) { add(m, 1, 0, true, 1.1, 0.4); add(m, 1, 0, true, 1.2, 0.6); } if (op == 3) { add(m, 0, 0, true, 0.2, 0.9); add(m, 0, 0, false, 0, 0); }
    if (op == 4) add(m, 0, 2, true, 0.4, 2.05); if (op == 5) { add(1, 0, 0, true, 0.8, 0.1); } if (op == 6) add(m, 0, 0, false, 0, 0);
    int qm = cx.choose(s == 0 ? 1 : 2, "asked map"), oi = cx.choose(4, "obstacle"); double ox = std::vector<double>{0.5, 0.3, 0.95, 1.3}[oi] * Sc, oy = std::vector<double>{0.5, 0.8, 0.45, 0.45}[oi] * Sc;
    Q q{ox, oy, 1, {ox, oy, 0, 0}}; double w = 0; int cx0 = std::floor(ox / Sc), cy0 = std::floor(oy / Sc);
    for (auto &r : refs[qm]) if (std::abs(r.first.first - cx0) <= win && std::abs(r.first.second - cy0) <= win && r.second.p >= th) w = std::max(w, std::exp(-(std::pow(r.second.x - ox, 2) + std::pow(r.second.y - oy, 2)) / 0.05));
    judge(cx, "gmapping", ask(e, *maps[qm], q), w, q, 10 + win); cx.state(mc::Hash() << w << s << op);
  }
}
// two full cells anywhere in the window: the better of them wins, whichever is met first
MC_SCENARIO(gmapping_pairs, 3) {
  int win = cx.choose(3, "window"), N = cx.thorough ? 5 : 3, R = N / 2; Coord base = cx.pick(std::vector<Coord>{{0, 0}, {-3, 2}}, "hit cell"); double sc = cx.pick(std::vector<double>{0.1, 1}, "scale"), ox = (base.x + cx.pick(std::vector<double>{0.5, 0.97, 0.05}, "ox")) * sc, oy = (base.y + cx.pick(std::vector<double>{0.5, 0.04}, "oy")) * sc; double th = cx.pick(std::vector<double>{0.1, 0.85}, "threshold");
  GmappingOccupancyObservationPE e(th, win); std::vector<std::pair<double, double>> in{{0.5, 0.5}, {0.02, 0.9}, {0.93, 0.5}, {0.99, 0.02}};
  int a = cx.choose(N * N, "first cell"), pa = cx.choose(4, "place"), ta = cx.choose(2, "also seen free");
  for (int b = 0; b < N * N; ++b) for (int pb = 0; pb < 4; ++pb) {
    UnboundedPlainGridMap m{std::make_shared<GmappingBaseCell>(), GridMapParams{5, 5, sc}}; double w = 0; GRef r[2]; int id[2] = {a, b}, pl[2] = {pa, pb}; if (a == b) continue;
    for (int i = 0; i < 2; ++i) { Coord c{base.x + id[i] % N - R, base.y + id[i] / N - R}; double x = (c.x + in[pl[i]].first) * sc, y = (c.y + in[pl[i]].second) * sc; m.update(c, AreaOccupancyObservation{true, {0.9, 1}, {x, y}, 1}); r[i].add(true, 0.9, x, y); if (i == 0 && ta) { m.update(c, AreaOccupancyObservation{false, {0, 1}, {x, y}, 1}); r[i].add(false, 0, 0, 0); }
      if (std::abs(id[i] % N - R) <= win && std::abs(id[i] / N - R) <= win && r[i].p >= th) w = std::max(w, std::exp(-(std::pow(r[i].x - ox, 2) + std::pow(r[i].y - oy, 2)) / 0.05)); }
    Q q{ox, oy, 1, {ox, oy, 0, 0}}; judge(cx, "gmapping", ask(e, m, q), w, q, 10 + win); cx.state(mc::Hash() << w << a << b << pa << pb);
  }
}
// areas of many cells, everywhere on a map full of values
MC_SCENARIO(large_areas, 3) {
  int k = cx.choose(4, "estimator"); bool disc = cx.flag("discrepancy"); double sc = cx.pick(std::vector<double>{1, 0.05, 0.3}, "scale"); UnboundedPlainGridMap plain{std::make_shared<ValCell>(), GridMapParams{50, 50, sc}}; UnboundedLazyTiledGridMap tiled{std::make_shared<ValCell>(), GridMapParams{50, 50, sc}}; GridMap *map = &plain; if (cx.flag("tiled")) map = &tiled; Vals v;
  for (int x = -35; x < 35; ++x) for (int y = -30; y < 40; ++y) if ((x + y) % 3) { double o = ((x * 7 + y * 13 + 4000) % 47) / 50.0; map->update({x, y}, AreaOccupancyObservation{true, {o, 1}, {0, 0}, 1}); v[{x, y}] = o; }
  auto e = mk(k, disc); double hx = cx.pick(std::vector<double>{0, 1.37, 5.61, 14.2}, "hx"), hy = cx.pick(std::vector<double>{0, 2.61, 9.83}, "hy");
  for (double x : {-31.43, -10.37, 0.29, 17.73, 42.41}) for (double y : {-28.63, 0.41, 11.13}) for (double o : {1.0, 0.35}) { Q q{(x + 0.3) * sc, (y - 0.2) * sc, o, {x * sc, y * sc, hx * sc, hy * sc}}; judge(cx, "rule", ask(*e, *map, q), want(k, disc, v, sc, q), q, k); cx.state(mc::Hash() << x << y << hx << hy << k << o); }
}
// wide windows over cells hit many times
MC_SCENARIO(gmapping_wide, 3) {
  int win = cx.pick(std::vector<int>{1, 4, 8}, "window"); double th = cx.pick(std::vector<double>{0.1, 0.5, 0.8}, "threshold"), sc = cx.pick(std::vector<double>{0.05, 0.1, 0.4}, "scale"); int hits = cx.pick(std::vector<int>{1, 20, 300}, "hits"), layout = cx.choose(3, "layout"); UnboundedPlainGridMap m{std::make_shared<GmappingBaseCell>(), GridMapParams{30, 30, sc}}; GmappingOccupancyObservationPE e(th, win); std::map<std::pair<int, int>, GRef> ref;
  for (int i = 0; i < 12 * hits; ++i) { int j = i % 12, x = layout == 0 ? j * 2 - 12 : layout == 1 ? (j * 5) % 13 - 6 : j % 4 * 5 - 8, y = layout == 0 ? 3 : layout == 1 ? (j * 7) % 11 - 5 : j / 4 * 6 - 7; bool occ = (i / 12 + j) % (2 + j % 4) != 0; double ox = (x + 0.1 + 0.07 * (i % 11)) * sc, oy = (y + 0.05 + 0.08 * (i / 12 % 11)) * sc; m.update({x, y}, AreaOccupancyObservation{occ, {occ ? 0.9 : 0.0, 1}, {ox, oy}, 1}); ref[{x, y}].add(occ, 0.9, ox, oy); }
  for (double X = -9.63; X < 10; X += 2.29) for (double Y = -8.41; Y < 9; Y += 1.87) {
    double w = 0; int cx0 = std::floor(X), cy0 = std::floor(Y); bool edge = false; for (auto &r : ref) if (std::abs(r.first.first - cx0) <= win && std::abs(r.first.second - cy0) <= win) { if (std::fabs(r.second.p - th) < 1e-6) edge = true; if (r.second.p >= th) w = std::max(w, std::exp(-(std::pow(r.second.x - X * sc, 2) + std::pow(r.second.y - Y * sc, 2)) / 0.05)); } if (edge) continue;
    Q q{X * sc, Y * sc, 1, {X * sc, Y * sc, 0, 0}}; judge(cx, "gmapping", ask(e, m, q), w, q, 10 + win); cx.state(mc::Hash() << w << X << Y);
  }
}
