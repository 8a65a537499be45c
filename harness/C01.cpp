// C01: grid maps remember exactly what was written to every cell
#include "mc.h"
#include "common.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/rescalable_caching_grid_map.h"

using Coord = RegularSquaresGrid::Coord;
typedef std::map<std::pair<int, int>, RefCell> Ref;

struct Spec { int w, h; };

template <typename Map> struct Traits;
template <> struct Traits<PlainGridMap> { static constexpr bool grows = false, lazy = false; static const char *name() { return "plain"; } };
template <> struct Traits<LazyTiledGridMap> { static constexpr bool grows = false, lazy = true; static const char *name() { return "lazy tiled"; } };
template <> struct Traits<UnboundedPlainGridMap> { static constexpr bool grows = true, lazy = false; static const char *name() { return "unbounded plain"; } };
template <> struct Traits<UnboundedLazyTiledGridMap> { static constexpr bool grows = true, lazy = true; static const char *name() { return "unbounded lazy tiled"; } };
template <> struct Traits<RescalableCachingGridMap<UnboundedPlainGridMap>> { static constexpr bool grows = true, lazy = false; static const char *name() { return "rescalable(plain)"; } };
template <> struct Traits<RescalableCachingGridMap<UnboundedLazyTiledGridMap>> { static constexpr bool grows = true, lazy = true; static const char *name() { return "rescalable(lazy)"; } };

// coordinates of the alphabet: corners, centre, just outside every side, far outside
template <typename Map>
static std::vector<Coord> alphabet(int w, int h, bool rich) {
  int l = -(w / 2), r = w - 1 - w / 2, b = -(h / 2), t = h - 1 - h / 2;
  std::vector<Coord> c;
  auto add = [&](int x, int y) { Coord p{x, y}; for (auto &q : c) if (q == p) return; c.push_back(p); };
  if (w > 0 && h > 0) {
    add(r, t); add(l, b); add(0, 0);
    if (rich) { add(l, t); add(r, b); add((l + r) / 2, b); add(l, (b + t) / 2); }
    if (Traits<Map>::lazy && w > 128) { add(l + 127, b); add(l + 128, b); }
    if (Traits<Map>::lazy && h > 128) { add(l, b + 127); add(l, b + 128); }
  } else add(0, 0);
  if (Traits<Map>::grows) {
    add(r + 1, t); add(l - 1, 0); add(0, t + 1); add(0, b - 1); add(l - 2, t + 3);
    add(r + w + 5, b - h - 4);
    if (rich) { add(l - 1, b - 1); add(r + 1, t + 1); add(r + 1, b - 1); add(l - w - 7, 0); add(0, b - h - 7); add(0, t + h + 6); }
    if (Traits<Map>::lazy) { add(l - 128, 0); add(r + 129, t + 128); if (rich) { add(0, b - 129); add(l - 300, t + 260); } }
  }
  return c;
}

template <typename Map>
static void check_all(mc::Ctx &cx, const Map &m, const Ref &ref, const std::vector<Coord> &probe, int w, int h) {
  int W = m.width(), H = m.height(); Coord o = m.origin();
  mc::Hash hsh; hsh << W << H << o.x << o.y;
  for (auto &c : probe) {
    Coord ic{c.x + o.x, c.y + o.y};
    bool inside = 0 <= ic.x && ic.x < W && 0 <= ic.y && ic.y < H;
    if (!Traits<Map>::grows) MC_CHECK(cx, m.has_cell(c) == inside, "has_cell", Traits<Map>::name() << ": has_cell(" << c << ") is " << m.has_cell(c) << " in a " << W << "x" << H << " map with origin " << o);
    if (!inside && !Traits<Map>::grows) continue;
    auto it = ref.find({c.x, c.y});
    RefCell want = it == ref.end() ? RefCell{} : it->second;
    const GridCell &g = m[c];
    MC_CHECK(cx, mc::near(g.occupancy().prob_occ, want.v) && g.is_unknown() == want.unknown, "content",
             Traits<Map>::name() << ": cell " << c << " reads " << g.occupancy().prob_occ << (g.is_unknown() ? " (unknown)" : "")
             << ", written was " << want.v << (want.unknown ? " (unknown)" : "") << "; map is " << W << "x" << H << " origin " << o);
    MC_CHECK(cx, mc::near(m.occupancy(c), want.v), "occupancy", Traits<Map>::name() << ": occupancy(" << c << ")=" << m.occupancy(c) << " but written was " << want.v);
    if (Traits<Map>::grows) MC_CHECK(cx, m.has_cell(c), "has_cell", Traits<Map>::name() << ": an unbounded map denies to have cell " << c);
    if (it != ref.end()) {
      MC_CHECK(cx, inside, "inside", Traits<Map>::name() << ": written cell " << c << " is outside of the " << W << "x" << H << " map with origin " << o);
      Coord back = m.internal2external(ic);
      MC_CHECK(cx, back == c, "coords", Traits<Map>::name() << ": internal2external(" << ic << ") = " << back << ", expected " << c);
    }
    hsh << c.x << c.y << g.occupancy().prob_occ << g.is_unknown();
  }
  MC_CHECK(cx, m.width() == W && m.height() == H && m.origin() == o, "read-modifies", Traits<Map>::name() << ": reading cells changed the dimensions of the map");
  cx.state(hsh);
}

template <typename Map>
static void history(mc::Ctx &cx, const std::vector<Spec> &sizes, int depth, bool rich) {
  Spec s = cx.pick(sizes, "size");
  double scale = 0.1;
  Map m{std::make_shared<HCell>(0.5), GridMapParams{s.w, s.h, scale}};
  MC_LOG(cx, " [" << Traits<Map>::name() << " " << s.w << "x" << s.h << "]");
  MC_CHECK(cx, m.width() == s.w && m.height() == s.h, "size", Traits<Map>::name() << ": made as " << s.w << "x" << s.h << ", reports " << m.width() << "x" << m.height());
  MC_CHECK(cx, mc::near(m.scale(), scale), "scale", "scale");
  auto coords = alphabet<Map>(s.w, s.h, rich);
  // every alphabet coordinate is probed together with its neighbours and its aliases one tile away
  std::vector<Coord> probe; std::set<std::pair<int, int>> uniq;
  auto add = [&](int x, int y) { if (uniq.insert({x, y}).second) probe.push_back({x, y}); };
  for (auto &c : coords) {
    for (int dx = -1; dx <= 1; ++dx) for (int dy = -1; dy <= 1; ++dy) add(c.x + dx, c.y + dy);
    if (Traits<Map>::lazy) for (int k : {-128, 128}) { add(c.x + k, c.y); add(c.x, c.y + k); add(c.x + k, c.y + k); }
    add(c.y, c.x);
  }
  if (!Traits<Map>::lazy && s.w <= 12 && s.h <= 12) for (int x = -10; x <= 10; ++x) for (int y = -10; y <= 10; ++y) add(x, y);
  Ref ref;
  Coord kept_lo{1, 1}, kept_hi{0, 0};
  check_all(cx, m, ref, probe, s.w, s.h);
  for (int d = 0; d < depth; ++d) {
    Coord c = cx.pick(coords, "cell");
    bool upd = cx.choose(2, "op") == 0;
    Coord lo = m.internal2external({0, 0}), hi = m.internal2external({m.width() - 1, m.height() - 1});
    RefCell &r = ref[{c.x, c.y}];
    if (upd) {
      auto a = obs(d + 1); MC_LOG(cx, " update" << c);
      m.update(c, a); r.v = fold(r.v, a); r.unknown = false;
    } else {
      HCell nc(0.77 - 0.1 * d); nc.mark(); MC_LOG(cx, " reset" << c);
      m.reset(c, nc); r.v = 0.77 - 0.1 * d; r.unknown = false;
      nc += obs(9); // the map has to have taken a copy
    }
    cx.step();
    Coord nlo = m.internal2external({0, 0}), nhi = m.internal2external({m.width() - 1, m.height() - 1});
    if (s.w > 0 && s.h > 0)
      MC_CHECK(cx, nlo.x <= lo.x && nlo.y <= lo.y && nhi.x >= hi.x && nhi.y >= hi.y, "shrink",
               Traits<Map>::name() << ": the map covered " << lo << ".." << hi << " before a write to " << c << " and only " << nlo << ".." << nhi << " after it");
    if (!Traits<Map>::grows) MC_CHECK(cx, m.width() == s.w && m.height() == s.h, "size", "a bounded map changed its size");
    check_all(cx, m, ref, probe, s.w, s.h);
    MC_CHECK(cx, mc::near(m.scale(), scale), "scale", "a write changed the scale");
  }
  // a fresh cell is an unknown one
  MC_CHECK(cx, m.new_cell()->is_unknown() && mc::near(m.new_cell()->occupancy().prob_occ, 0.5), "prototype", "the prototype cell has been modified");
  cx.outcome(mc::Hash() << m.width() << m.height() << m.origin().x << m.origin().y);
}

static std::vector<Spec> small_sizes() { return {{1, 1}, {2, 3}, {5, 4}, {10, 7}}; }

MC_SCENARIO(plain, 2) { history<PlainGridMap>(cx, {{1, 1}, {2, 3}, {5, 4}, {1, 6}}, cx.thorough ? 4 : 3, true); }
MC_SCENARIO(unbounded_plain, 3) { history<UnboundedPlainGridMap>(cx, small_sizes(), cx.thorough ? 4 : 3, true); }
MC_SCENARIO(unbounded_plain_rich, 3) { history<UnboundedPlainGridMap>(cx, {{0, 0}, {3, 3}, {6, 1}, {11, 20}, {30, 31}}, cx.thorough ? 3 : 2, true); }
MC_SCENARIO(rescalable_plain, 3) { history<RescalableCachingGridMap<UnboundedPlainGridMap>>(cx, {{1, 1}, {5, 4}, {8, 8}}, cx.thorough ? 3 : 2, true); }
MC_SCENARIO(lazy, 3) { history<LazyTiledGridMap>(cx, {{4, 3}, {128, 128}, {129, 5}, {6, 200}, {257, 130}}, cx.thorough ? 3 : 2, true); }
MC_SCENARIO(unbounded_lazy, 3) { history<UnboundedLazyTiledGridMap>(cx, {{1, 1}, {5, 4}, {128, 128}, {200, 100}}, cx.thorough ? 3 : 2, true); }
MC_SCENARIO(unbounded_lazy_deep, 3) { history<UnboundedLazyTiledGridMap>(cx, {{5, 4}, {130, 257}}, 3, false); }
MC_SCENARIO(rescalable_lazy, 3) { history<RescalableCachingGridMap<UnboundedLazyTiledGridMap>>(cx, {{1, 1}, {5, 4}}, 2, false); }

// exact growth sizes: every size x every single coordinate around it, then every coordinate is read back
template <typename Map> static void growth(mc::Ctx &cx, int maxs, int reach) {
  int w = 1 + cx.choose(maxs, "w"), h = 1 + cx.choose(3, "h") * 4;
  Map m{std::make_shared<HCell>(0.5), GridMapParams{w, h, 1.0}};
  int x1 = cx.choose(2 * reach + w, "x") - reach - w / 2;
  int y1 = cx.choose(5, "y") * 3 - 6;
  bool tr = cx.flag("transposed");
  Ref ref; std::vector<Coord> probe;
  Coord c0{0, 0}, c1 = tr ? Coord{y1, x1} : Coord{x1, y1};
  auto a0 = obs(1), a1 = obs(2);
  m.update(c0, a0); ref[{0, 0}].v = fold(0.5, a0); ref[{0, 0}].unknown = false;
  m.update(c1, a1); auto &r = ref[{c1.x, c1.y}]; r.v = fold(r.v, a1); r.unknown = false;
  cx.step(2);
  for (auto &q : {c0, c1}) for (int dx = -1; dx <= 1; ++dx) for (int dy = -1; dy <= 1; ++dy) probe.push_back({q.x + dx, q.y + dy});
  MC_LOG(cx, " " << w << "x" << h << " then " << c1);
  check_all(cx, m, ref, probe, w, h);
  cx.outcome(mc::Hash() << m.width() << m.height() << m.origin().x << m.origin().y);
}
MC_SCENARIO(growth_plain, 2) { growth<UnboundedPlainGridMap>(cx, cx.thorough ? 60 : 24, cx.thorough ? 40 : 16); }
MC_SCENARIO(growth_lazy, 2, true) { growth<UnboundedLazyTiledGridMap>(cx, 3, 300); }
// long regular histories: a robot that walks away in any direction, spirals or comes back, writing all the way
template <typename Map> static void walk(mc::Ctx &cx, const std::vector<Spec> &sizes, const std::vector<int> &strides, int steps) {
  Spec s = cx.pick(sizes, "size"); int stride = cx.pick(strides, "stride"), dir = cx.choose(8, "direction"), pattern = cx.choose(3, "pattern");
  static const int DX[] = {1, 1, 0, -1, -1, -1, 0, 1}, DY[] = {0, 1, 1, 1, 0, -1, -1, -1};
  Map m{std::make_shared<HCell>(0.5), GridMapParams{s.w, s.h, 0.05}}; Ref ref; std::vector<Coord> probe; std::set<std::pair<int, int>> uniq;
  int x = 0, y = 0, far = 0;
  auto at = [&](int k) { // where the k-th write goes
    if (pattern == 0) { x += DX[dir] * stride; y += DY[dir] * stride; } // straight away
    else if (pattern == 1) { int d = (dir + (k / (1 + k / 8))) % 8; x += DX[d] * stride; y += DY[d] * stride; } // a widening spiral
    else { far = k % 2 ? 0 : k; x = DX[dir] * far * stride; y = DY[dir] * far * stride; } // to and fro between the start and an ever farther place
    return Coord{x, y};
  };
  for (int k = 0; k < steps; ++k) {
    Coord c = at(k); RefCell &r = ref[{c.x, c.y}]; cx.step();
    if (k % 5 != 4) { auto a = obs(k); m.update(c, a); r.v = fold(r.v, a); }
    else { HCell nc(0.2 + 0.01 * (k % 50)); nc.mark(); m.reset(c, nc); r.v = 0.2 + 0.01 * (k % 50); }
    r.unknown = false;
    for (int dx = -1; dx <= 1; ++dx) for (int dy = -1; dy <= 1; ++dy) if (uniq.insert({c.x + dx, c.y + dy}).second) probe.push_back({c.x + dx, c.y + dy});
    if (k % 8 == 7 || k + 1 == steps) check_all(cx, m, ref, probe, s.w, s.h);
  }
  MC_CHECK(cx, mc::near(m.scale(), 0.05), "scale", "a write changed the scale");
  cx.outcome(mc::Hash() << m.width() << m.height() << m.origin().x << m.origin().y);
}
MC_SCENARIO(walk_plain, 3) { walk<UnboundedPlainGridMap>(cx, {{1, 1}, {20, 20}}, {1, 3}, cx.thorough ? 250 : 128); }
MC_SCENARIO(walk_lazy, 3) { walk<UnboundedLazyTiledGridMap>(cx, {{1, 1}, {200, 100}}, {3, 50}, cx.thorough ? 400 : 200); }
MC_SCENARIO(walk_rescalable, 3) { walk<RescalableCachingGridMap<UnboundedPlainGridMap>>(cx, {{8, 8}}, {1, 2}, cx.thorough ? 120 : 64); }
// growth by a different number of tiles in every direction at once, with written cells in every corner of what is there
template <typename Map> static void jumps(mc::Ctx &cx, const std::vector<Spec> &sizes, const std::vector<int> &dist, int depth) {
  Spec s = cx.pick(sizes, "size");
  Map m{std::make_shared<HCell>(0.5), GridMapParams{s.w, s.h, 0.1}}; Ref ref; std::vector<Coord> probe; std::set<std::pair<int, int>> uniq;
  auto write = [&](const Coord &c, int k) {
    auto a = obs(k); m.update(c, a); RefCell &r = ref[{c.x, c.y}]; r.v = fold(r.v, a); r.unknown = false; cx.step();
    for (int dx = -1; dx <= 1; ++dx) for (int dy = -1; dy <= 1; ++dy) if (uniq.insert({c.x + dx, c.y + dy}).second) probe.push_back({c.x + dx, c.y + dy});
    for (int k1 : {-256, -128, 128, 256}) for (auto q : {Coord{c.x + k1, c.y}, Coord{c.x, c.y + k1}, Coord{c.x + k1, c.y + k1}}) if (uniq.insert({q.x, q.y}).second) probe.push_back(q);
  };
  int l = -(s.w / 2), r = s.w - 1 - s.w / 2, b = -(s.h / 2), t = s.h - 1 - s.h / 2;
  write({l, b}, 1); write({r, t}, 2); write({l, t}, 3); write({r, b}, 4);
  check_all(cx, m, ref, probe, s.w, s.h);
  for (int d = 0; d < depth; ++d) {
    int jx = cx.pick(dist, "dx"), jy = cx.pick(dist, "dy");
    Coord lo = m.internal2external({0, 0}), hi = m.internal2external({m.width() - 1, m.height() - 1});
    Coord c{jx < 0 ? lo.x + jx : jx > 0 ? hi.x + jx : (lo.x + hi.x) / 2, jy < 0 ? lo.y + jy : jy > 0 ? hi.y + jy : (lo.y + hi.y) / 2};
    write(c, 5 + d); check_all(cx, m, ref, probe, s.w, s.h);
  }
  cx.outcome(mc::Hash() << m.width() << m.height() << m.origin().x << m.origin().y);
}
MC_SCENARIO(jumps_lazy, 2) { jumps<UnboundedLazyTiledGridMap>(cx, {{1, 1}, {150, 20}, {128, 256}}, cx.thorough ? std::vector<int>{0, -1, 1, -100, 100, -140, 140, -300, 300, -520} : std::vector<int>{0, -1, 1, -140, 140, -300, 300}, 2); }
MC_SCENARIO(jumps_plain, 2) { jumps<UnboundedPlainGridMap>(cx, {{1, 1}, {9, 4}, {30, 31}}, {0, -1, 1, -9, 9, -40, 40}, cx.thorough ? 3 : 2); }
// content far away from the origin and from the rest of the content
template <typename Map> static void far(mc::Ctx &cx, const std::vector<int> &dist) {
  Map m{std::make_shared<HCell>(0.5), GridMapParams{5, 4, 0.1}}; Ref ref; std::vector<Coord> probe, put{{0, 0}, {-1, 2}};
  auto write = [&](Coord c, int k) { auto a = obs(k); m.update(c, a); auto &r = ref[{c.x, c.y}]; r.v = fold(r.unknown ? 0.5 : r.v, a); r.unknown = false; cx.step(); for (int dx = -1; dx <= 1; ++dx) for (int dy = -1; dy <= 1; ++dy) probe.push_back({c.x + dx, c.y + dy}); };
  for (auto &c : put) write(c, 1);
  for (int k = 0; k < 2; ++k) { int d = cx.pick(dist, "distance"), off = cx.choose(3, "aside") * 2 - 2; bool tr = cx.flag("up"); Coord c = tr ? Coord{off, d} : Coord{d, off}; MC_LOG(cx, " " << c); write(c, 2); if (k) write({0, 0}, 2); check_all(cx, m, ref, probe, 5, 4); }
  cx.outcome(mc::Hash() << m.width() << m.height() << m.origin().x << m.origin().y);
}
MC_SCENARIO(far_lazy, 2) { far<UnboundedLazyTiledGridMap>(cx, {-70000, -33000, 33000, 70000}); }
MC_SCENARIO(far_plain, 2) { far<UnboundedPlainGridMap>(cx, {-2000, -1000, 1000, 2000}); }
// a bounded map with every cell written, several times over
template <typename Map> static void full(mc::Ctx &cx, const std::vector<Spec> &sizes) {
  Spec s = cx.pick(sizes, "size"); int order = cx.choose(3, "order"), rounds = 1 + cx.choose(3, "rounds");
  Map m{std::make_shared<HCell>(0.5), GridMapParams{s.w, s.h, 2.5}}; Ref ref; std::vector<Coord> cells;
  for (int x = 0; x < s.w; ++x) for (int y = 0; y < s.h; ++y) cells.push_back({x - s.w / 2, y - s.h / 2});
  if (order == 1) std::reverse(cells.begin(), cells.end());
  if (order == 2) std::stable_sort(cells.begin(), cells.end(), [](const Coord &a, const Coord &b) { return (a.x * 7 + a.y * 13) % 17 < (b.x * 7 + b.y * 13) % 17; });
  for (int r = 0; r < rounds; ++r) { for (size_t i = 0; i < cells.size(); ++i) { auto a = obs(int(i) * 3 + r); m.update(cells[i], a); auto &q = ref[{cells[i].x, cells[i].y}]; q.v = fold(q.v, a); q.unknown = false; cx.step(); } }
  check_all(cx, m, ref, cells, s.w, s.h);
  cx.outcome(mc::Hash() << s.w << s.h << order << rounds);
}
MC_SCENARIO(full_plain, 2) { full<PlainGridMap>(cx, {{9, 7}, {40, 33}, {1, 90}}); }
MC_SCENARIO(full_lazy, 2) { full<LazyTiledGridMap>(cx, {{9, 7}, {140, 20}, {130, 257}}); }
MC_SCENARIO(full_unbounded_lazy, 2) { full<UnboundedLazyTiledGridMap>(cx, {{9, 7}, {140, 130}}); }
MC_SCENARIO(full_unbounded_plain, 2) { full<UnboundedPlainGridMap>(cx, {{9, 7}, {64, 33}}); }
// cells are taken over from another place of the same map, written or not, the cell itself included, and from cells that are unknown in their own way
template <typename Map> static void taken_over(mc::Ctx &cx, const std::vector<Spec> &sizes, int depth) {
  Spec s = cx.pick(sizes, "size"); Map m{std::make_shared<HCell>(0.5), GridMapParams{s.w, s.h, 0.1}}; Ref ref; std::vector<Coord> probe; const bool grows = Traits<Map>::grows;
  int l = -(s.w / 2), r = s.w - 1 - s.w / 2, b = -(s.h / 2), t = s.h - 1 - s.h / 2;
  std::vector<Coord> cells{{l, b}, {r, t}, {0, 0}}; if (Traits<Map>::lazy && s.w > 130) cells.push_back({l + 128, b}); if (grows) { cells.push_back({l - 2, b}); cells.push_back({r + 140, t + 3}); }
  for (auto &c : cells) for (int dx = -1; dx <= 1; ++dx) for (int dy = -1; dy <= 1; ++dy) probe.push_back({c.x + dx, c.y + dy});
  { auto a = obs(1); Coord c{r, t}; m.update(c, a); auto &q = ref[{c.x, c.y}]; q.v = fold(0.5, a); q.unknown = false; }
  for (int d = 0; d < depth; ++d) {
    Coord c = cx.pick(cells, "cell"); int from = cx.choose(int(cells.size()) + 2, "from"); auto was = [&](const Coord &p) { auto i = ref.find({p.x, p.y}); return i == ref.end() ? RefCell{} : i->second; };
    if (from < int(cells.size())) { Coord f = cells[from]; RefCell v = was(f); m.reset(c, m[f]); ref[{c.x, c.y}] = v; MC_LOG(cx, " " << c << ":=" << f); }
    else if (from == int(cells.size())) { HCell u(0.25); m.reset(c, u); RefCell v; v.v = 0.25; v.unknown = true; ref[{c.x, c.y}] = v; MC_LOG(cx, " " << c << ":=unknown"); }
    else { auto a = obs(d + 2); m.update(c, a); RefCell v = was(c); v.v = fold(v.v, a); v.unknown = false; ref[{c.x, c.y}] = v; MC_LOG(cx, " update" << c); }
    cx.step(); check_all(cx, m, ref, probe, s.w, s.h);
  }
  MC_CHECK(cx, m.new_cell()->is_unknown() && mc::near(m.new_cell()->occupancy().prob_occ, 0.5), "prototype", "the prototype cell has been modified");
  cx.outcome(mc::Hash() << m.width() << m.height() << m[cells[0]].occupancy().prob_occ << m[cells[1]].occupancy().prob_occ << m[cells[2]].is_unknown());
}
MC_SCENARIO(taken_over, 3) {
  int d = cx.thorough ? 4 : 3;
  switch (cx.choose(6, "kind")) { case 0: taken_over<PlainGridMap>(cx, {{5, 4}}, d); break; case 1: taken_over<UnboundedPlainGridMap>(cx, {{5, 4}}, d); break; case 2: taken_over<LazyTiledGridMap>(cx, {{5, 4}, {200, 100}}, d - 1); break;
    case 3: taken_over<UnboundedLazyTiledGridMap>(cx, {{5, 4}, {200, 100}}, d - 1); break; case 4: taken_over<RescalableCachingGridMap<UnboundedPlainGridMap>>(cx, {{5, 4}}, d - 1); break; default: taken_over<RescalableCachingGridMap<UnboundedLazyTiledGridMap>>(cx, {{5, 4}}, d - 1); }
}
