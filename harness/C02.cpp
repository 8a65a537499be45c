// C02: copies of a map are independent of each other
#include "mc.h"
#include "common.h"
#include "core/maps/lazy_tiled_grid_map.h"
using Coord = RegularSquaresGrid::Coord;
typedef std::map<std::pair<int, int>, RefCell> Ref;

template <typename Map, bool Grows>
static void copies(mc::Ctx &cx, int slots, int depth, std::vector<Coord> coords, int w, int h, bool destroy) {
  std::vector<std::unique_ptr<Map>> m(slots);
  std::vector<Ref> ref(slots);
  std::vector<Coord> probe;
  { std::set<std::pair<int, int>> u;
    for (auto &c : coords) for (int dx : {-128, -1, 0, 1, 128}) for (int dy : {-128, 0, 1}) if (u.insert({c.x + dx, c.y + dy}).second) probe.push_back({c.x + dx, c.y + dy}); }
  int seq = 0;
  auto write = [&](int i, const Coord &c, bool upd) {
    RefCell &r = ref[i][{c.x, c.y}]; ++seq;
    if (upd) { auto a = obs(seq); m[i]->update(c, a); r.v = fold(r.v, a); }
    else { HCell nc(0.9 - 0.05 * seq); nc.mark(); m[i]->reset(c, nc); r.v = 0.9 - 0.05 * seq; }
    r.unknown = false;
  };
  auto verify = [&]() {
    mc::Hash hs;
    for (int i = 0; i < slots; ++i) if (m[i]) {
      int W = m[i]->width(), H = m[i]->height(); Coord o = m[i]->origin();
      hs << i << W << H;
      for (auto &c : probe) {
        if (!Grows && !(0 <= c.x + o.x && c.x + o.x < W && 0 <= c.y + o.y && c.y + o.y < H)) continue;
        auto it = ref[i].find({c.x, c.y}); RefCell want = it == ref[i].end() ? RefCell{} : it->second;
        auto &g = (*m[i])[c];
        MC_CHECK(cx, mc::near(g.occupancy().prob_occ, want.v) && g.is_unknown() == want.unknown, "independent",
                 "instance " << i << " reads " << g.occupancy().prob_occ << " at " << c << " but its own history gives " << want.v);
        if (it != ref[i].end()) hs << c.x << c.y << want.v;
      }
    }
    cx.state(hs);
  };
  m[0].reset(new Map{std::make_shared<HCell>(0.5), GridMapParams{w, h, 0.1}});
  int initial = cx.choose(3, "initial"); // empty, one cell, two cells already written
  if (initial >= 1) write(0, coords[0], true);
  if (initial >= 2) write(0, coords.back(), false);
  for (int d = 0; d < depth; ++d) {
    struct Op { char k; int i, j; Coord c; };
    std::vector<Op> ops;
    int firstEmpty = -1, alive = 0;
    for (int i = 0; i < slots; ++i) { if (m[i]) ++alive; else if (firstEmpty < 0) firstEmpty = i; }
    for (int i = 0; i < slots; ++i) if (m[i]) {
      if (firstEmpty >= 0) ops.push_back({'c', i, firstEmpty, {}}); // copy construct (empty slots are interchangeable)
      for (int j = 0; j < slots; ++j) if (m[j]) ops.push_back({'a', i, j, {}}); // assign, self-assign included
    }
    for (int i = 0; i < slots; ++i) if (m[i]) {
      for (auto &c : coords) ops.push_back({'u', i, 0, c});
      ops.push_back({'r', i, 0, coords[0]});
      if (destroy && alive > 1) ops.push_back({'d', i, 0, {}});
      if (destroy && firstEmpty >= 0) ops.push_back({'m', i, firstEmpty, {}}); // move construct, source destroyed
    }
    Op o = cx.pick(ops, "op"); cx.step();
    MC_LOG(cx, " " << o.k << o.i << "," << o.j << o.c);
    switch (o.k) {
    case 'c': m[o.j].reset(new Map(static_cast<const Map &>(*m[o.i]))); ref[o.j] = ref[o.i]; break;
    case 'a': *m[o.j] = static_cast<const Map &>(*m[o.i]); ref[o.j] = ref[o.i]; break;
    case 'u': write(o.i, o.c, true); break;
    case 'r': write(o.i, o.c, false); break;
    case 'd': m[o.i].reset(); ref[o.i].clear(); break;
    case 'm': m[o.j].reset(new Map(std::move(*m[o.i]))); m[o.i].reset(); ref[o.j] = ref[o.i]; ref[o.i].clear(); break;
    }
    verify();
  }
  mc::Hash out; for (int i = 0; i < slots; ++i) { out << bool(m[i]); for (auto &k : ref[i]) out << k.first.first << k.first.second << k.second.v; }
  cx.outcome(out);
}
MC_SCENARIO(lazy_two, 3) { copies<LazyTiledGridMap, false>(cx, 2, cx.thorough ? 5 : 4, {{0, 0}, {0, 1}, {129, 0}}, 400, 200, true); }
MC_SCENARIO(unbounded_two, 3) { copies<UnboundedLazyTiledGridMap, true>(cx, 2, cx.thorough ? 5 : 4, {{0, 0}, {1, 1}, {-4, 0}, {2, 140}}, 5, 4, true); }
MC_SCENARIO(unbounded_three, 3) { copies<UnboundedLazyTiledGridMap, true>(cx, 3, cx.thorough ? 5 : 4, {{0, 0}, {-5, 1}}, 5, 4, false); }
MC_SCENARIO(lazy_three, 3) { copies<LazyTiledGridMap, false>(cx, 3, cx.thorough ? 5 : 4, {{0, 0}, {3, 3}}, 100, 50, true); }
// generations of copies, as resampling makes them: every generation each map is replaced by a copy of a chosen one, then all are written
template <typename Map> static void generations(mc::Ctx &cx, int n, int gens, int w, int h, int spread) {
  int scheme = cx.choose(4, "scheme"), stride = 1 + cx.choose(3, "stride"), from = cx.choose(n, "winner"), writes = 1 + cx.choose(2, "writes") * 5, how = cx.choose(2, "how");
  std::vector<std::unique_ptr<Map>> m; std::vector<Ref> ref(n); std::set<std::pair<int, int>> probe; int seq = 0;
  for (int i = 0; i < n; ++i) m.emplace_back(new Map{std::make_shared<HCell>(0.5), GridMapParams{w, h, 0.1}});
  for (int g = 0; g < gens; ++g) {
    std::vector<int> src(n); // whose copy the i-th becomes
    for (int i = 0; i < n; ++i) src[i] = scheme == 0 ? (i + stride) % n : scheme == 1 ? from : scheme == 2 ? (i / 2 + g) % n : (g % stride ? i : (i * i + from) % n);
    if (how == 0) { std::vector<std::unique_ptr<Map>> nm; std::vector<Ref> nr; for (int i = 0; i < n; ++i) { nm.emplace_back(new Map(static_cast<const Map &>(*m[src[i]]))); nr.push_back(ref[src[i]]); } m.swap(nm); ref.swap(nr); }
    else for (int i = 0; i < n; ++i) { *m[i] = static_cast<const Map &>(*m[src[i]]); ref[i] = ref[src[i]]; }
    for (int i = 0; i < n; ++i) for (int k = 0; k < writes; ++k) {
      ++seq; Coord c{(seq * 37 + i) % (2 * spread) - spread, (seq * 91 + g * 5) % (2 * spread) - spread}; RefCell &r = ref[i][{c.x, c.y}]; cx.step();
      if (seq % 4) { auto a = obs(seq); m[i]->update(c, a); r.v = fold(r.v, a); } else { HCell nc(0.01 * (seq % 100)); nc.mark(); m[i]->reset(c, nc); r.v = 0.01 * (seq % 100); }
      r.unknown = false; probe.insert({c.x, c.y});
    }
    mc::Hash hs;
    for (int i = 0; i < n; ++i) for (auto &p : probe) {
      Coord c{p.first, p.second}, o = m[i]->origin(); if (c.x + o.x < 0 || c.y + o.y < 0 || c.x + o.x >= m[i]->width() || c.y + o.y >= m[i]->height()) { MC_CHECK(cx, !ref[i].count(p), "independent", "map " << i << " does not contain cell " << c << " it was written at"); continue; }
      auto it = ref[i].find(p); RefCell want = it == ref[i].end() ? RefCell{} : it->second; auto &cell = (*m[i])[c];
      MC_CHECK(cx, mc::near(cell.occupancy().prob_occ, want.v) && cell.is_unknown() == want.unknown, "independent", "generation " << g << ": map " << i << " reads " << cell.occupancy().prob_occ << " at " << c << " but its own history gives " << want.v);
      hs << want.v;
    }
    cx.state(hs);
  }
  cx.outcome(mc::Hash() << seq << scheme << stride << from);
}
MC_SCENARIO(generations_lazy, 3) { generations<LazyTiledGridMap>(cx, 5, cx.thorough ? 40 : 12, 400, 400, 190); }
MC_SCENARIO(generations_unbounded, 3) { generations<UnboundedLazyTiledGridMap>(cx, 5, cx.thorough ? 40 : 12, 5, 4, 170); }
