// C03: saving and loading a map or cell loses nothing
#include "mc.h"
#include "common.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/rescalable_caching_grid_map.h"
#include "core/maps/naive_grid_cells.h"
#include "core/maps/tbm_grid_cells.h"
#include "slams/gmapping/gmapping_grid_cell.h"
#include "slams/credibilist/grid_cell.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/m3rsm_engine.h"
using Coord = RegularSquaresGrid::Coord;

static std::vector<std::pair<const char *, std::function<std::shared_ptr<GridCell>()>>> cell_kinds() {
  return {{"base", [] { return std::make_shared<GridCell>(Occupancy{0.5, 0.3}); }},
          {"affine", [] { return std::make_shared<AffineQualityMergeCell>(); }},
          {"mean", [] { return std::make_shared<MeanProbabilityCell>(); }},
          {"tbm-consistent", [] { return std::make_shared<TbmOccConsistentCell>(); }},
          {"tbm-even", [] { return std::make_shared<TbmUnknownEvenOccCell>(); }},
          {"gmapping", [] { return std::make_shared<GmappingBaseCell>(); }},
          {"credibilist", [] { return std::make_shared<CredibilistCell>(); }}};
}
static std::vector<AreaOccupancyObservation> alphabet() {
  return {{true, {0.9, 0.8}, {1.25, -0.5}, 0.7}, {false, {0.1, 0.6}, {0.3, 0.2}, 0.9}, {true, {0.65, 1}, {1.3, -0.4}, 0.4},
          {false, Occupancy::invalid(), {0, 0}, 1}, {true, {0.7, 0.5}, {-2, 3}, 1}};
}
static void compare(mc::Ctx &cx, const GridCell &a, const GridCell &b, const std::string &when) {
  MC_CHECK(cx, mc::near(a.occupancy().prob_occ, b.occupancy().prob_occ) && mc::near(a.occupancy().estimation_quality, b.occupancy().estimation_quality),
           "value", when << ": the original reads " << a.occupancy() << " and the restored one " << b.occupancy());
  MC_CHECK(cx, a.is_unknown() == b.is_unknown(), "unknown", when << ": unknown flags differ");
  for (auto &o : alphabet()) if (o.occupancy.is_valid())
    MC_CHECK(cx, mc::near(a.discrepancy(o), b.discrepancy(o)), "discrepancy", when << ": the original's discrepancy is " << a.discrepancy(o) << " and the restored one's " << b.discrepancy(o));
}
// one cell: every history, save, load, every continuation; the target may have a history of its own
MC_SCENARIO(cells, 3) {
  auto kinds = cell_kinds(); auto &k = cx.pick(kinds, "kind"); MC_LOG(cx, " [" << k.first << "]");
  auto alpha = alphabet();
  auto a = k.second(), b = k.second();
  int before = cx.choose(cx.thorough ? 6 : 5, "before"), after = cx.choose(3, "after"), pad = cx.choose(2, "offset"), dirty = cx.choose(3, "target-history");
  for (int i = 0; i < before; ++i) { *a += cx.pick(alpha, "obs"); cx.step(); }
  for (int i = 0; i < dirty; ++i) *b += alpha[2 - i * 2];
  auto raw = a->serialize();
  std::vector<char> data(pad * 13, 'x'); data.insert(data.end(), raw.begin(), raw.end()); data.insert(data.end(), 40, 'y');
  size_t pos = b->deserialize(data, pad * 13);
  MC_CHECK(cx, pos == pad * 13 + raw.size(), "position", k.first << ": deserialisation consumed " << pos - pad * 13 << " of " << raw.size() << " bytes");
  auto raw2 = a->serialize(); MC_CHECK(cx, raw == raw2, "const", "serialisation is not repeatable");
  compare(cx, *a, *b, std::string(k.first) + " after load");
  for (int i = 0; i < after; ++i) {
    auto &o = cx.pick(alpha, "obs"); *a += o; *b += o; cx.step();
    compare(cx, *a, *b, std::string(k.first) + " after load and " + std::to_string(i + 1) + " more observations");
    cx.state(mc::Hash() << k.first[0] << k.first[1] << a->occupancy().prob_occ << a->occupancy().estimation_quality);
  }
  cx.outcome(mc::Hash() << a->occupancy().prob_occ << a->is_unknown());
}
struct MapCmp {
  template <typename M> static void go(mc::Ctx &cx, const M &a, const M &b, const std::string &when, int reach) {
    MC_CHECK(cx, a.width() == b.width() && a.height() == b.height() && a.origin() == b.origin() && a.scale() == b.scale(), "geometry",
             when << ": the original is " << a.width() << "x" << a.height() << " origin " << a.origin() << " scale " << a.scale() << ", the restored one "
             << b.width() << "x" << b.height() << " origin " << b.origin() << " scale " << b.scale());
    for (int x = -reach; x <= reach; ++x) for (int y = -reach; y <= reach; ++y) {
      auto &p = a[{x, y}]; auto &q = b[{x, y}];
      MC_CHECK(cx, mc::near(p.occupancy().prob_occ, q.occupancy().prob_occ) && mc::near(p.occupancy().estimation_quality, q.occupancy().estimation_quality)
               && p.is_unknown() == q.is_unknown(), "map-cell",
               when << ": cell (" << x << "," << y << ") reads " << p.occupancy() << (p.is_unknown() ? " unknown" : "") << " in the original and "
               << q.occupancy() << (q.is_unknown() ? " unknown" : "") << " in the restored map");
    }
  }
};
static std::vector<Coord> map_coords() { return {{0, 0}, {1, -1}, {-3, 0}, {2, 4}, {-2, -5}, {6, 0}}; }
MC_SCENARIO(unbounded_plain, 3) {
  auto kinds = cell_kinds(); auto &k = cx.pick(kinds, "kind"); MC_LOG(cx, " [" << k.first << "]");
  std::vector<GridMapParams> ps{{3, 2, 0.1}, {4, 4, 0.5}}; auto p = cx.pick(ps, "size");
  std::vector<GridMapParams> tps{{1, 1, 1}, {9, 2, 0.25}}; auto tp = cx.pick(tps, "target");
  UnboundedPlainGridMap a{k.second(), p}, b{k.second(), tp};
  auto alpha = alphabet(); auto cs = map_coords(); int n = cx.choose(3, "before");
  for (int i = 0; i < n; ++i) {
    auto &c = cx.pick(cs, "cell"); int o = cx.choose(4, "obs"); MC_LOG(cx, " w" << c); cx.step();
    if (o == 3) { if (k.first == std::string("base")) a.reset(c, GridCell{Occupancy{0.35 + 0.1 * i, 0.6}}); else a.reset(c, *k.second()); continue; } // a cell that knows nothing yet has a state too
    if (i == 1 && o == 2) { auto nc = k.second(); *nc += alpha[0]; a.reset(c, *nc); } else a.update(c, alpha[o]);
  }
  if (cx.flag("target-written")) b.update({-1, 7}, alpha[0]);
  b.load_state(a.save_state());
  MapCmp::go(cx, a, b, "after load", 9);
  for (int i = 0; i < 2; ++i) {
    auto &c = cx.pick(cs, "cell"); a.update(c, alpha[i]); b.update(c, alpha[i]); cx.step();
    MapCmp::go(cx, a, b, "after load and further updates", 9);
  }
  cx.state(mc::Hash() << k.first[0] << a.width() << a.height() << a.origin().x << a[{0, 0}].occupancy().prob_occ << a[{1, -1}].occupancy().prob_occ);
  cx.outcome(mc::Hash() << a.width() << a.height() << a.origin().x << a.origin().y);
}
template <typename M> static void resc(mc::Ctx &cx, int nb, int reach) {
  auto kinds = cell_kinds(); auto &k = kinds[cx.choose(7, "kind")]; MC_LOG(cx, " [" << k.first << "]");
  std::vector<GridMapParams> ps{{3, 2, 0.1}, {5, 4, 0.5}}; auto p = cx.pick(ps, "size");
  M a{k.second(), p}, b{k.second(), GridMapParams{1, 1, 1}};
  auto alpha = alphabet(); auto cs = map_coords();
  for (int i = 0; i < nb; ++i) { auto &c = cx.pick(cs, "cell"); a.update(c, alpha[cx.choose(3, "obs")]); cx.step(); }
  b.load_state(a.save_state());
  auto all = [&](const char *when) {
    MC_CHECK(cx, a.scales_nm() == b.scales_nm(), "levels", "the original has " << a.scales_nm() << " levels, the restored map " << b.scales_nm());
    for (unsigned i = 0; i < a.scales_nm(); ++i) { a.set_scale_id(i); b.set_scale_id(i); MapCmp::go(cx, a, b, std::string(when) + ", level " + std::to_string(i), reach); }
    a.set_scale_id(0); b.set_scale_id(0);
  };
  all("after load");
  auto &c = cx.pick(cs, "cell"); a.update(c, alpha[0]); b.update(c, alpha[0]); cx.step();
  all("after load and a further update");
  cx.state(mc::Hash() << k.first[0] << a.width() << a.height() << a.origin().x << a[{0, 0}].occupancy().prob_occ << a[{1, -1}].occupancy().prob_occ);
  cx.outcome(mc::Hash() << a.width() << a.height() << a.scales_nm());
}
MC_SCENARIO(rescalable, 3) { resc<RescalableCachingGridMap<UnboundedPlainGridMap>>(cx, 2, 9); }
// long histories and big maps
MC_SCENARIO(cells_long, 2) {
  auto kinds = cell_kinds(); auto k = cx.pick(kinds, "kind"); auto alpha = alphabet(); int i = cx.choose(5, "first"), j = cx.choose(5, "second"), mix = 1 + cx.choose(3, "mix");
  auto a = k.second(), b = k.second(); int n = 0;
  for (int stop : {10, 60, 300, 1000}) {
    for (; n < stop; ++n) { *a += alpha[n % (mix + 1) == mix ? j : i]; cx.step(); }
    auto raw = a->serialize(); auto c = k.second(); size_t pos = c->deserialize(raw, 0), pos2 = b->deserialize(raw, 0);
    MC_CHECK(cx, pos == raw.size() && pos2 == raw.size(), "position", k.first << ": after " << n << " observations deserialisation consumed " << pos << " of " << raw.size() << " bytes");
    compare(cx, *a, *c, std::string(k.first) + " after " + std::to_string(n) + " observations and a load"); compare(cx, *a, *b, std::string(k.first) + " loaded over an older state");
    for (int e = 0; e < 5; ++e) { *c += alpha[e]; *b += alpha[e]; } auto d = a->clone(); for (int e = 0; e < 5; ++e) *d += alpha[e];
    compare(cx, *d, *c, std::string(k.first) + " continued after " + std::to_string(n) + " observations and a load"); compare(cx, *d, *b, std::string(k.first) + " continued");
  }
  cx.state(mc::Hash() << k.first << a->occupancy().prob_occ); cx.outcome(mc::Hash() << k.first << a->occupancy().prob_occ);
}
MC_SCENARIO(maps_big, 2) {
  auto kinds = cell_kinds(); auto k = cx.pick(kinds, "kind"); auto alpha = alphabet();
  std::vector<GridMapParams> ps{{60, 35, 0.05}, {1, 150, 1}, {130, 3, 0.1}, {16, 16, 4}, {290, 240, 0.1}}; auto p = cx.pick(ps, "size"); int order = cx.choose(3, "writes"), reload = cx.choose(2, "reload");
  UnboundedPlainGridMap a{k.second(), p}, b{k.second(), GridMapParams{3, 3, 0.7}};
  auto write = [&](UnboundedPlainGridMap &m, int n0, int n1) { for (int n = n0; n < n1; ++n) { Coord c{(n * 37) % 81 - 40, (n * 53) % 61 - 30}; if (order == 0 && (c.x > 20 || c.x < -20)) continue; if (order == 1) std::swap(c.x, c.y); m.update(c, alpha[n % 3]); cx.step(); } };
  write(a, 0, 300);
  if (reload) { b.load_state(a.save_state()); write(b, 300, 340); write(a, 300, 340); } // a second save of a map which was loaded itself
  UnboundedPlainGridMap c{k.second(), GridMapParams{1, 1, 1}}; c.load_state(reload ? b.save_state() : a.save_state());
  MapCmp::go(cx, a, c, "after load", 45);
  write(a, 400, 500); write(c, 400, 500); MapCmp::go(cx, a, c, "after load and further updates", 45);
  cx.state(mc::Hash() << k.first << a.width() << a.height()); cx.outcome(mc::Hash() << a.width() << a.height() << a.origin().x << a.origin().y);
}
