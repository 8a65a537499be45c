// C07: a rectangle is rasterized to exactly the cells it overlaps
#include "mc.h"
#include <vector>
#include <algorithm>
#include <memory>
#include "common.h"
#include "core/maps/grid_rasterization.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/rescalable_caching_grid_map.h"
using Coord = RegularSquaresGrid::Coord;
struct Grid : RegularSquaresGrid { Grid(int w, int h, double s) : RegularSquaresGrid(w, h, s) {} };

// expected cells of one dimension; a, b are in units of 1/den cell
static std::pair<int, int> span(int a, int b, int den, bool border) {
  auto fl = [&](int x) { return x >= 0 ? x / den : -((-x + den - 1) / den); };
  if (border || a == b) return {fl(a), fl(b)};
  // without its border: (a, b) open
  return {fl(a), b % den == 0 ? fl(b) - 1 : fl(b)};
}
static void one(mc::Ctx &cx, const RegularSquaresGrid &g, double scale, int den, int l, int r, int b, int t, bool border) {
  double u = scale / den;
  LightWeightRectangle rc{b * u, t * u, l * u, r * u};
  GridRasterizedRectangle it{g, rc, border};
  std::set<std::pair<int, int>> got; int n = 0;
  while (it.has_next()) {
    auto c = it.next(); ++n;
    MC_CHECK(cx, got.insert({c.x, c.y}).second, "twice", "cell " << c << " of " << rc << " (scale " << scale << ") is visited twice");
    MC_CHECK(cx, n < 1000000, "endless", "the iteration does not end");
  }
  MC_CHECK(cx, !it.has_next(), "has_next", "has_next is true after the end");
  auto h = span(l, r, den, border), v = span(b, t, den, border); cx.step();
  std::set<std::pair<int, int>> want;
  for (int x = h.first; x <= h.second; ++x) for (int y = v.first; y <= v.second; ++y) want.insert({x, y});
  // a line has no inside: without its border it still is in the cells it runs through, with or without the ones it only ends on
  bool line = (l == r) != (b == t), as_whole = false;
  if (line && !border) {
    auto hi = span(l, r, den, true), vi = span(b, t, den, true); std::set<std::pair<int, int>> all; for (int x = hi.first; x <= hi.second; ++x) for (int y = vi.first; y <= vi.second; ++y) all.insert({x, y});
    as_whole = got == all;
  }
  if (got != want && !as_whole) {
    std::ostringstream os; os << rc << " (scale " << scale << ", border " << (border ? "included" : "excluded") << ") is rasterized to";
    for (auto &c : got) os << " (" << c.first << "," << c.second << ")"; os << " instead of"; for (auto &c : want) os << " (" << c.first << "," << c.second << ")";
    cx.fail("cells", os.str());
  }
  auto vec = border && (l + b) % 2 ? GridRasterizedRectangle{g, rc}.to_vector() : GridRasterizedRectangle{g, rc, border}.to_vector(); // borders are included unless stated otherwise
  MC_CHECK(cx, vec.size() == got.size(), "to_vector", "to_vector has " << vec.size() << " cells, the iteration " << got.size());
  for (auto &c : vec) MC_CHECK(cx, got.count({c.x, c.y}), "to_vector", "to_vector has " << c);
  mc::Hash hh; for (auto &c : got) hh << c.first << c.second; cx.state(hh); cx.outcome(hh);
}
// dyadic scales and positions: borders exactly on cell borders included
MC_SCENARIO(aligned, 3) {
  std::vector<double> sc{1.0, 0.5, 4.0}; double s = cx.pick(sc, "scale"); bool border = cx.choose(2, "noborder") == 0;
  int N = cx.thorough ? 12 : 7, den = 2; Grid g(10, 8, s);
  int l = cx.choose(N, "l") - N / 2; int w = cx.choose(N - 1, "w"), r = l + w; int b = cx.choose(N, "b") - N / 2;
  for (int h = 0; h < N; ++h) {
    int t = b + h;
    one(cx, g, s, den, l, r, b, t, border);
  }
}
// any scale, off the cell borders
MC_SCENARIO(unaligned, 3) {
  std::vector<double> sc{0.1, 0.37, 3.0}; double s = cx.pick(sc, "scale"); bool border = cx.choose(2, "noborder") == 0;
  int N = cx.thorough ? 16 : 9, den = 4; Grid g(10, 8, s);
  auto ok = [](int x) { return (x % 4) != 0; };
  int l = cx.choose(2 * N, "l") - N, r = l + cx.choose(N, "w"); int b = cx.choose(2 * N, "b") - N;
  if (!ok(l) || !ok(r) || !ok(b)) cx.prune();
  for (int t = b; t < b + N; ++t) if (ok(t)) one(cx, g, s, den, l, r, b, t, border);
}
// the bounds of a cell without the border are that cell; the whole world is the whole map, for every map kind and after growth
template <typename M> static void whole(mc::Ctx &cx) {
  int w = 1 + cx.choose(5, "w"), h = 1 + cx.choose(5, "h"); M m{std::make_shared<HCell>(0.5), GridMapParams{w, h, 0.1}};
  int gx = cx.choose(5, "gx") * 3 - 6, gy = cx.choose(5, "gy") * 3 - 6;
  m.update({gx, gy}, obs(1)); cx.step();
  double inf = std::numeric_limits<double>::infinity();
  auto v = GridRasterizedRectangle{m, LightWeightRectangle{-inf, inf, -inf, inf}}.to_vector();
  std::set<std::pair<int, int>> got; for (auto &c : v) got.insert({c.x, c.y});
  Coord o = m.origin();
  MC_CHECK(cx, v.size() == got.size() && v.size() == size_t(m.width() * m.height()), "whole", "the infinite area has " << v.size() << " cells in a " << m.width() << "x" << m.height() << " map");
  for (int x = 0; x < m.width(); ++x) for (int y = 0; y < m.height(); ++y) MC_CHECK(cx, got.count({x - o.x, y - o.y}), "whole", "the infinite area misses cell " << Coord(x - o.x, y - o.y));
  for (int x = -4; x <= 4; ++x) for (int y = -4; y <= 4; ++y) {
    auto c = GridRasterizedRectangle{m, m.world_cell_bounds({x, y}), false}.to_vector();
    MC_CHECK(cx, c.size() == 1 && c[0] == (Coord{x, y}), "cell-bounds", "the bounds of cell " << Coord(x, y) << " are rasterized to " << c.size() << " cells");
  }
  cx.outcome(mc::Hash() << m.width() << m.height()); cx.state(mc::Hash() << m.width() << m.height() << m.origin().x << m.origin().y);
}
MC_SCENARIO(whole_plain, 2) { whole<UnboundedPlainGridMap>(cx); }
MC_SCENARIO(whole_rescalable, 2) { whole<RescalableCachingGridMap<UnboundedPlainGridMap>>(cx); }
// wide areas, thin ones, far from the origin
MC_SCENARIO(large, 3) {
  std::vector<double> sc{1.0, 0.1, 0.05, 3.0}; double s = cx.pick(sc, "scale"); bool border = cx.choose(2, "noborder") == 0; Grid g(10, 8, s);
  std::vector<int> at{-40001, -399, -2, 1, 5, 1003, 80005}; int l = cx.pick(at, "l"), b = cx.pick(at, "b");
  std::vector<int> len{0, 2, 4, 81, 602, 1200}; if (cx.thorough) len.push_back(4001); int r = l + cx.pick(len, "w"); if (r % 4 == 0) ++r;
  if (l % 4 == 0) ++l;
  for (int h : len) { int bb = b, t = b + h; if (bb % 4 == 0) ++bb; if (t % 4 == 0) ++t; if (t < bb || double(r - l) * (t - bb) > 16 * (cx.thorough ? 120000.0 : 60000.0) || r < l) continue; one(cx, g, s, 4, l, r, bb, t, border); }
}

// areas of tens of thousands of cells in a row, of a few in a column, and the other way round
MC_SCENARIO(strips, 2) {
  double s = cx.pick(std::vector<double>{1, 0.05}, "scale"); int len = cx.pick(std::vector<int>{300, 1100, 4500, 9000, 17000, 33000, 66000}, "length"), wide = cx.choose(3, "width"); bool border = cx.flag("border"), up = cx.flag("upright"); int at = cx.pick(std::vector<int>{0, -1, -40000, 70001}, "at"), den = 4; if (wide == 2 && len > 30000) cx.prune(); Grid g(10, 8, s);
  int l = 4 * at + 1, r = l + 4 * len + 1, b = -5, t = b + 4 * wide + 2; if (up) one(cx, g, s, den, b, t, l, r, border); else one(cx, g, s, den, l, r, b, t, border); cx.nontrivial();
}
