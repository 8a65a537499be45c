// C06: a beam visits exactly the chain of cells it crosses
#include "mc.h"
#include <vector>
#include <algorithm>
#include "core/maps/regular_squares_grid.h"
using Coord = RegularSquaresGrid::Coord;
struct Grid : RegularSquaresGrid { Grid(int w, int h, double s) : RegularSquaresGrid(w, h, s) {} };

// in cell units: does the open segment (a,b) meet the open unit cell c / distance checks
struct Geo {
  double ax, ay, bx, by;
  double f(double x, double y) const { return (bx - ax) * (y - ay) - (by - ay) * (x - ax); }
  bool crosses(const Coord &c, double shrink) const { // Liang-Barsky clip against the cell shrunk by `shrink`
    double t0 = 0, t1 = 1, dx = bx - ax, dy = by - ay;
    double p[4] = {-dx, dx, -dy, dy}, q[4] = {ax - (c.x + shrink), c.x + 1 - shrink - ax, ay - (c.y + shrink), c.y + 1 - shrink - ay};
    for (int i = 0; i < 4; ++i) {
      if (p[i] == 0) { if (q[i] < 0) return false; continue; }
      double r = q[i] / p[i]; if (p[i] < 0) t0 = std::max(t0, r); else t1 = std::min(t1, r);
    }
    return t0 <= t1;
  }
  double dist_to(double x, double y) const {
    double dx = bx - ax, dy = by - ay, l = dx * dx + dy * dy, t = l == 0 ? 0 : ((x - ax) * dx + (y - ay) * dy) / l;
    t = std::max(0.0, std::min(1.0, t)); return std::hypot(x - ax - t * dx, y - ay - t * dy);
  }
  // is the segment closer than tol to a grid vertex it passes by (ambiguous exit from a cell)?
  bool near_vertex(double tol) const {
    double len = std::hypot(bx - ax, by - ay); if (len == 0) return false;
    int x0 = std::floor(std::min(ax, bx)) - 1, x1 = std::ceil(std::max(ax, bx)) + 1, y0 = std::floor(std::min(ay, by)) - 1, y1 = std::ceil(std::max(ay, by)) + 1;
    for (int x = x0; x <= x1; ++x) for (int y = y0; y <= y1; ++y) if (dist_to(x, y) < tol) return true;
    return false;
  }
};
static void segment(mc::Ctx &cx, const Geo &g, double scale, const Coord &shift, bool dyadic) {
  Grid grid(20, 10, scale);
  Point2D b{(g.ax + shift.x) * scale, (g.ay + shift.y) * scale}, e{(g.bx + shift.x) * scale, (g.by + shift.y) * scale};
  auto v = grid.world_to_cells(Segment2D{b, e}); cx.step();
  auto on_edge = [](double x) { return std::fabs(x - std::round(x)) < 1e-9; };
  bool edges = on_edge(g.ax) || on_edge(g.ay) || on_edge(g.bx) || on_edge(g.by);
  std::ostringstream dsc; dsc.precision(17); dsc << "segment " << b << "-" << e << " on a grid with scale " << scale << ": ";
  MC_CHECK(cx, !v.empty() && v.size() < 10000, "empty", dsc.str() << v.size() << " cells");
  Coord wb{int(std::floor(g.ax)), int(std::floor(g.ay))}, we{int(std::floor(g.bx)), int(std::floor(g.by))};
  Coord first = v.front() - shift, last = v.back() - shift;
  if (dyadic || !edges) {
    MC_CHECK(cx, first == wb, "begin", dsc.str() << "starts at cell " << v.front() << ", expected " << wb + shift);
    MC_CHECK(cx, last == we, "end", dsc.str() << "ends at cell " << v.back() << ", expected " << we + shift);
  }
  std::set<std::pair<int, int>> seen;
  for (size_t i = 0; i < v.size(); ++i) {
    Coord c = v[i] - shift;
    MC_CHECK(cx, seen.insert({c.x, c.y}).second, "repeat", dsc.str() << "cell " << v[i] << " repeats");
    if (i) { Coord p = v[i - 1] - shift; MC_CHECK(cx, std::abs(c.x - p.x) <= 1 && std::abs(c.y - p.y) <= 1, "gap", dsc.str() << "cells " << v[i - 1] << " and " << v[i] << " are not neighbours"); }
    MC_CHECK(cx, g.dist_to(c.x + 0.5, c.y + 0.5) < 1.5, "far", dsc.str() << "cell " << v[i] << " is more than a cell away from the segment");
  }
  bool generic = !edges && !g.near_vertex(1e-4);
  if (generic) { // no vertex is passed: the chain is exactly the crossed cells
    std::set<std::pair<int, int>> want;
    int x0 = std::min(wb.x, we.x), x1 = std::max(wb.x, we.x), y0 = std::min(wb.y, we.y), y1 = std::max(wb.y, we.y);
    for (int x = x0; x <= x1; ++x) for (int y = y0; y <= y1; ++y) if (g.crosses({x, y}, 0)) want.insert({x, y});
    std::ostringstream got; for (auto &c : v) got << c;
    MC_CHECK(cx, seen == want, "crossed", dsc.str() << "visits " << got.str() << " but crosses " << want.size() << " cells");
    ++cx.counters["generic segments (exact set compared)"];
  } else ++cx.counters["segments through a grid vertex or from a cell border"];
  mc::Hash h; for (auto &c : v) h << c.x << c.y; cx.state(h); cx.outcome(h);
}
MC_SCENARIO(segments, 3) {
  int R = cx.thorough ? 11 : 6;
  std::vector<double> off{0.5, 0.25, 0.81, 0.03}; if (cx.thorough) off.push_back(0.97);
  std::vector<double> scales{1.0, 0.1, 0.37}; double s = cx.pick(scales, "scale");
  std::vector<Coord> shifts{{0, 0}, {-40, 17}, {1000, -2000}}; Coord sh = cx.pick(shifts, "shift");
  Geo g; g.ax = cx.pick(off, "ax"); g.ay = cx.pick(off, "ay");
  int ex = cx.choose(2 * R + 1, "ex") - R, ey = cx.choose(2 * R + 1, "ey") - R;
  for (double ox : off) for (double oy : off) { g.bx = ex + ox; g.by = ey + oy; segment(cx, g, s, sh, s == 1.0); }
}
MC_SCENARIO(border_segments, 3) { // ends on cell borders and vertices
  int R = cx.thorough ? 7 : 4;
  std::vector<double> off{0.0, 0.5, 0.3};
  std::vector<double> scales{1.0, 0.25, 2.0}; double s = cx.pick(scales, "scale");
  std::vector<Coord> shifts{{0, 0}, {-16, 9}}; Coord sh = cx.pick(shifts, "shift");
  Geo g; g.ax = cx.pick(off, "ax"); g.ay = cx.pick(off, "ay");
  int ex = cx.choose(2 * R + 1, "ex") - R, ey = cx.choose(2 * R + 1, "ey") - R;
  for (double ox : off) for (double oy : off) { g.bx = ex + ox; g.by = ey + oy; segment(cx, g, s, sh, true); }
}
MC_SCENARIO(long_segments, 2) {
  int n = cx.thorough ? 360 : 120; double a = 2 * M_PI * (cx.choose(n, "bearing") + 0.37) / n; int l = cx.choose(cx.thorough ? 8 : 4, "length");
  Geo g{0.31, 0.62, 0, 0}; double len = 37.3 * (1 << l); g.bx = g.ax + len * std::cos(a); g.by = g.ay + len * std::sin(a);
  segment(cx, g, 0.1, {0, 0}, false);
}
MC_SCENARIO(conversions, 1) {
  std::vector<double> scales{1, 0.1, 0.05, 0.37, 3, 1e-3, 250}; double s = cx.pick(scales, "scale"); Grid g(7, 9, s);
  std::vector<int> far{-1000003, -70001, -1024, 1024, 70001, 1000003};
  std::vector<int> xs; for (int i = -60; i <= 60; ++i) xs.push_back(i); for (int f : far) xs.push_back(f);
  int x = cx.pick(xs, "x");
  for (int y : xs) {
    Coord c{x, y}; cx.step();
    Point2D w = g.cell_to_world(c);
    MC_CHECK(cx, mc::near(w.x, (x + 0.5) * s) && mc::near(w.y, (y + 0.5) * s), "cell_to_world", "cell " << c << " scale " << s << " has its middle at " << w);
    MC_CHECK(cx, g.world_to_cell(w) == c && g.world_to_cell(w.x, w.y) == c, "inverse", "cell " << c << " scale " << s << ": its middle maps to " << g.world_to_cell(w));
    MC_CHECK(cx, g.world_to_cell(w.x, w.y, s * 2) == (Coord{int(std::floor((x + 0.5) / 2)), int(std::floor((y + 0.5) / 2))}), "world_to_cell(scale)", "cell " << c << " in a twice coarser grid");
    auto r = g.world_cell_bounds(c);
    MC_CHECK(cx, mc::near(r.left(), x * s) && mc::near(r.right(), (x + 1) * s) && mc::near(r.bot(), y * s) && mc::near(r.top(), (y + 1) * s), "bounds", "bounds of " << c << ": " << r);
    for (double dx : {0.01, 0.99}) for (double dy : {0.01, 0.99})
      MC_CHECK(cx, g.world_to_cell((x + dx) * s, (y + dy) * s) == c, "inside", "a point in cell " << c << " (+" << dx << ",+" << dy << ") maps to " << g.world_to_cell((x + dx) * s, (y + dy) * s));
    MC_CHECK(cx, g.has_cell(c) == (x + 3 >= 0 && x + 3 < 7 && y + 4 >= 0 && y + 4 < 9), "has_cell", "7x9 grid, cell " << c);
    MC_CHECK(cx, g.internal2external({x, y}) == (Coord{x - 3, y - 4}), "internal2external", "cell " << c);
  }
  cx.state(mc::Hash() << s << x); cx.outcome(mc::Hash() << s << x);
}
MC_SCENARIO(discrete, 2) {
  int R = cx.thorough ? 40 : 16;
  std::vector<Coord> begs{{0, 0}, {5, -3}, {-100, 77}}; Coord b = cx.pick(begs, "beg");
  int dx = cx.choose(2 * R + 1, "dx") - R;
  for (int dy = -R; dy <= R; ++dy) {
    Coord e{b.x + dx, b.y + dy}; std::vector<DiscretePoint2D> v = DiscreteSegment2D{b, e}; cx.step();
    int n = std::max(std::abs(dx), std::abs(dy));
    MC_CHECK(cx, v.size() == size_t(n + 1), "count", "discrete segment " << b << e << " has " << v.size() << " points");
    MC_CHECK(cx, v.front() == b && v.back() == e, "ends", "discrete segment " << b << e << " runs from " << v.front() << " to " << v.back());
    for (size_t i = 0; i < v.size(); ++i) {
      if (i) MC_CHECK(cx, std::max(std::abs(v[i].x - v[i - 1].x), std::abs(v[i].y - v[i - 1].y)) == 1, "gap", "discrete segment " << b << e << ": " << v[i - 1] << v[i]);
      // along the primary axis by one each step, at most half a cell off the line
      if (n) {
        double wx = b.x + double(dx) * i / n, wy = b.y + double(dy) * i / n;
        MC_CHECK(cx, std::fabs(v[i].x - wx) <= 0.5 + 1e-9 && std::fabs(v[i].y - wy) <= 0.5 + 1e-9, "off", "discrete segment " << b << e << ": point " << v[i] << " is off the line");
      }
    }
  }
  cx.state(mc::Hash() << b.x << dx); cx.outcome(mc::Hash() << b.x << dx);
}
// longer than any map is wide, on fine and coarse grids, far from the origin, also nearly along an axis
MC_SCENARIO(far_segments, 2) {
  std::vector<double> scales{0.05, 0.37, 1, 8}; double s = cx.pick(scales, "scale"); std::vector<Coord> shifts{{0, 0}, {9000, -7000}, {-30000, 200}}; Coord sh = cx.pick(shifts, "shift");
  int nb = cx.thorough ? 48 : 16, b = cx.choose(nb + 8, "bearing"); double a = b < nb ? 2 * M_PI * (b + 0.41) / nb : (b - nb) / 2 * M_PI / 2 + ((b & 1) ? 0.0021 : -0.0013);
  for (double len : {61.7, 333.3, 1500.9}) { Geo g{0.37, 0.58, 0, 0}; g.bx = g.ax + len * std::cos(a); g.by = g.ay + len * std::sin(a); segment(cx, g, s, sh, false); }
}
