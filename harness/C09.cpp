// C09: beam-in-cell occupancy estimate matches the exact geometry
#include "mc.h"
#include <vector>
#include <algorithm>
#include <memory>
#include <cstdlib>
#include "core/maps/area_occupancy_estimator.h"
#include "core/maps/const_occupancy_estimator.h"

static const Occupancy BO{0.95, 0.9}, BE{0.04, 0.8};
static const double LowQ = 0.01, UnkQ = 0.37;
struct V { double x, y; };
// ---- exact reference in units of the cell: the cell is [0,1]x[0,1]
static double area_of(const std::vector<V> &p) { double a = 0; for (size_t i = 0; i < p.size(); ++i) { auto &q = p[(i + 1) % p.size()]; a += p[i].x * q.y - q.x * p[i].y; } return std::fabs(a) / 2; }
// area of the part of the unit square where n.(p - o) > 0
static double half_area(V o, V n) {
  std::vector<V> sq{{0, 0}, {1, 0}, {1, 1}, {0, 1}}, out;
  auto f = [&](V p) { return (p.x - o.x) * n.x + (p.y - o.y) * n.y; };
  for (int i = 0; i < 4; ++i) {
    V a = sq[i], b = sq[(i + 1) % 4]; double fa = f(a), fb = f(b);
    if (fa >= 0) out.push_back(a);
    if ((fa > 0 && fb < 0) || (fa < 0 && fb > 0)) { double t = fa / (fa - fb); out.push_back({a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)}); }
  }
  return out.size() < 3 ? 0 : area_of(out);
}
static bool clip(V a, V b, double &t0, double &t1) {
  t0 = 0; t1 = 1; double dx = b.x - a.x, dy = b.y - a.y;
  double p[4] = {-dx, dx, -dy, dy}, q[4] = {a.x, 1 - a.x, a.y, 1 - a.y};
  for (int i = 0; i < 4; ++i) { if (p[i] == 0) { if (q[i] < 0) return false; continue; } double r = q[i] / p[i]; if (p[i] < 0) t0 = std::max(t0, r); else t1 = std::min(t1, r); }
  return t0 <= t1;
}
static double line_dist(V o, V d, V p) { return std::fabs((p.x - o.x) * d.y - (p.y - o.y) * d.x) / std::hypot(d.x, d.y); }
static bool on_border(V p) { const double e = 1e-6; bool in = p.x > -e && p.x < 1 + e && p.y > -e && p.y < 1 + e; return in && (std::fabs(p.x) < e || std::fabs(p.x - 1) < e || std::fabs(p.y) < e || std::fabs(p.y - 1) < e); }
// an end of the beam is on an edge (not at a vertex) and the beam is not along that edge
static bool border_reference(V a, V b, bool occ, Occupancy &want) {
  V d{b.x - a.x, b.y - a.y}; bool ea = on_border(a), eb = on_border(b); 
  for (V c : {V{0, 0}, V{1, 0}, V{0, 1}, V{1, 1}}) if (line_dist(a, d, c) < 1e-6 || line_dist(b, {-d.y, d.x}, c) < 1e-6) return false;
  auto in = [](V p) { return p.x > 0 && p.x < 1 && p.y > 0 && p.y < 1; };
  double side = half_area(a, {-d.y, d.x}); side = std::min(side, 1 - side); double behind = half_area(b, d);
  double h = 1e-3 / std::hypot(d.x, d.y); bool enters = in({a.x + h * d.x, a.y + h * d.y}), came = in({b.x - h * d.x, b.y - h * d.y});
  if (ea && eb) { // from edge to edge through the cell
    if (!enters) return false;
    want = occ ? Occupancy::invalid() : Occupancy{BE.prob_occ, BE.estimation_quality * side}; return true;
  }
  if (ea) {
    if (in(b)) { want = occ ? Occupancy{std::max(behind, BE.prob_occ), BO.estimation_quality} : Occupancy{BE.prob_occ, UnkQ}; return true; }
    if (occ || !enters) { want = Occupancy::invalid(); return true; }
    want = Occupancy{BE.prob_occ, BE.estimation_quality * side}; return true;
  }
  if (in(a)) { want = occ ? Occupancy::invalid() : Occupancy{BE.prob_occ, UnkQ}; return true; }
  if (!came) { want = occ ? Occupancy{std::max(behind, BE.prob_occ), BO.estimation_quality} : Occupancy{BE.prob_occ, UnkQ}; return true; }
  want = occ ? Occupancy{std::max(behind, BE.prob_occ), BO.estimation_quality} : Occupancy{BE.prob_occ, BE.estimation_quality * side}; return true;
}
// returns false if the placement is degenerate (a vertex or an edge is met), then nothing exact is claimed
static bool reference(V a, V b, bool occ, Occupancy &want) {
  V d{b.x - a.x, b.y - a.y}; if (d.x == 0 && d.y == 0) return false;
  if (on_border(a) || on_border(b)) return border_reference(a, b, occ, want);
  for (V c : {V{0, 0}, V{1, 0}, V{0, 1}, V{1, 1}}) if (line_dist(a, d, c) < 1e-6) return false;
  auto in = [](V p) { return p.x > 0 && p.x < 1 && p.y > 0 && p.y < 1; };
  bool ia = in(a), ib = in(b); double t0, t1;
  if (!ia && !ib) {
    if (!clip(a, b, t0, t1)) { want = Occupancy::invalid(); return true; }
    if (occ) { want = Occupancy::invalid(); return true; }
    double r = half_area(a, {-d.y, d.x}); r = std::min(r, 1 - r); want = Occupancy{BE.prob_occ, BE.estimation_quality * r}; return true;
  }
  if (!occ) { want = Occupancy{BE.prob_occ, UnkQ}; return true; }
  if (ia) { want = Occupancy::invalid(); return true; }
  // the obstacle hides everything behind the line through the beam's end across the beam
  V n = d; for (V c : {V{0, 0}, V{1, 0}, V{0, 1}, V{1, 1}}) if (line_dist(b, {-d.y, d.x}, c) < 1e-6) return false;
  double r = half_area(b, n); want = Occupancy{std::max(r, BE.prob_occ), BO.estimation_quality}; return true;
}
static bool same(const Occupancy &a, const Occupancy &b) {
  if (!a.is_valid() || !b.is_valid()) return a.is_valid() == b.is_valid();
  return mc::near(a.prob_occ, b.prob_occ, 1e-6) && mc::near(a.estimation_quality, b.estimation_quality, 1e-6);
}
struct Place { double x, y, s; };
static Occupancy est(AreaOccupancyEstimator &e, V a, V b, const Place &p, bool occ) {
  Segment2D beam{{p.x + a.x * p.s, p.y + a.y * p.s}, {p.x + b.x * p.s, p.y + b.y * p.s}};
  Rectangle cell{p.y, p.y + p.s, p.x, p.x + p.s};
  return e.estimate_occupancy(beam, cell, occ);
}
static V turn(V p, int k) { // the eight symmetries of the cell
  p.x -= 0.5; p.y -= 0.5; if (k & 4) p.x = -p.x; for (int i = 0; i < (k & 3); ++i) { double t = p.x; p.x = -p.y; p.y = t; } return {p.x + 0.5, p.y + 0.5};
}
static std::string show(V a, V b, const Place &p, bool occ) {
  std::ostringstream s; s << (occ ? "occupied" : "empty") << " beam (" << a.x << "," << a.y << ")-(" << b.x << "," << b.y << ") in units of a cell of size " << p.s << " at (" << p.x << "," << p.y << ")"; return s.str();
}
static void geometry(mc::Ctx &cx, int lo, int hi, int den, double off, const std::vector<Place> &places) {
  int n = hi - lo + 1; const Place p = cx.pick(places, "place");
  V a{(lo + cx.choose(n, "ax") + off) / den, (lo + cx.choose(n, "ay") + off) / den};
  int ibx = cx.choose(n, "bx"); AreaOccupancyEstimator e{BO, BE, LowQ, UnkQ};
  for (int iby = 0; iby < n; ++iby) for (int occ = 0; occ < 2; ++occ) {
    V b{(lo + ibx + off) / den, (lo + iby + off) / den};
    if (a.x == b.x && a.y == b.y) continue;
    Occupancy got = est(e, a, b, p, occ), want; cx.step();
    if (got.is_valid()) MC_CHECK(cx, got.prob_occ >= 0 && got.prob_occ <= 1 && got.estimation_quality >= 0 && got.estimation_quality <= 1, "range", show(a, b, p, occ) << " gives " << got);
    if (occ == 0 && got.is_valid()) MC_CHECK(cx, mc::near(got.prob_occ, BE.prob_occ), "empty", show(a, b, p, occ) << " gives " << got);
    bool plain = reference(a, b, occ, want);
    if (plain) {
      ++cx.counters["compared with the exact area"];
      MC_CHECK(cx, same(got, want), "area", show(a, b, p, occ) << " gives " << got << ", the geometry gives " << want);
    } else ++cx.counters["degenerate placements (invariance only)"];
    // the same relative geometry anywhere else (where vertices and edges are met exactly or not at all)
    if (plain || off == 0) {
    for (auto &q : places) { Occupancy o = est(e, a, b, q, occ); MC_CHECK(cx, same(got, o), "translation", show(a, b, p, occ) << " gives " << got << " but " << o << " for the cell of size " << q.s << " at (" << q.x << "," << q.y << ")"); }
    for (int k = 1; k < 8; ++k) { Occupancy o = est(e, turn(a, k), turn(b, k), p, occ); MC_CHECK(cx, same(got, o), "symmetry", show(a, b, p, occ) << " gives " << got << " but " << o << " when the picture is turned/mirrored (" << k << "): " << show(turn(a, k), turn(b, k), p, occ)); }
    }
    AreaOccupancyEstimator fresh{BO, BE, LowQ, UnkQ}; Occupancy o = est(fresh, a, b, p, occ);
    MC_CHECK(cx, same(got, o), "history", show(a, b, p, occ) << " gives " << got << " but " << o << " with a fresh estimator");
    cx.outcome(mc::Hash() << got.prob_occ << got.estimation_quality); cx.state(mc::Hash() << a.x << a.y << b.x << b.y << occ);
  }
}
// positions and sizes are dyadic, so that borders are met exactly everywhere
MC_SCENARIO(lattice_on_borders, 3) { geometry(cx, cx.thorough ? -8 : -4, cx.thorough ? 16 : 8, cx.thorough ? 8 : 4, 0, {{0, 0, 1}, {-0.5, -0.5, 1}, {16, 24, 0.5}, {-8, 4, 2}}); }
MC_SCENARIO(lattice_off_borders, 3) { geometry(cx, cx.thorough ? -10 : -6, cx.thorough ? 18 : 10, cx.thorough ? 8 : 4, 0.37, {{0, 0, 1}, {-0.5, -0.5, 1}, {3.7, 12.1, 0.1}, {-10.4, 0.6, 0.2}}); }
// parameters: every combination reaches the estimate
MC_SCENARIO(parameters, 2) {
  std::vector<double> v{0, 0.1, 0.6, 1}; double op = cx.pick(v, "occ"), oq = cx.pick(v, "occ-q"), ep = cx.pick(v, "emp"), eq = cx.pick(v, "emp-q"), uq = cx.pick(v, "unknown-q");
  AreaOccupancyEstimator e{Occupancy{op, oq}, Occupancy{ep, eq}, 0.02, uq}; Place p{2, -3, 1}; cx.step();
  Occupancy o = est(e, {-1, 0.5}, {0.25, 0.5}, p, true); MC_CHECK(cx, same(o, Occupancy{std::max(0.75, ep), oq}), "parameters", "occupied estimate " << o);
  o = est(e, {-1, 0.25}, {3, 0.25}, p, false); MC_CHECK(cx, same(o, Occupancy{ep, eq * 0.25}), "parameters", "empty estimate " << o);
  o = est(e, {-1, 0.25}, {0.5, 0.25}, p, false); MC_CHECK(cx, same(o, Occupancy{ep, uq}), "parameters", "unknown estimate " << o);
  ConstOccupancyEstimator c{Occupancy{op, oq}, Occupancy{ep, eq}};
  for (bool occ : {true, false}) for (double x : {-3.0, 0.5, 7.0}) { o = c.estimate_occupancy(Segment2D{{x, 0}, {1, x}}, Rectangle{0, 1, 0, 1}, occ); MC_CHECK(cx, same(o, occ ? Occupancy{op, oq} : Occupancy{ep, eq}), "const", "constant estimate " << o); }
  cx.outcome(mc::Hash() << op << oq << ep << eq << uq); cx.state(mc::Hash() << op << oq << ep << eq << uq);
}
// beams much longer than a cell, cells of every usual size, far from the origin
MC_SCENARIO(long_beams, 3) {
  std::vector<Place> places{{0, 0, 1}, {12.35, -67.8, 0.05}, {-1000.5, 250.1, 0.1}, {40, -80, 5}}; const Place p = cx.pick(places, "place");
  int nb = cx.thorough ? 48 : 24, k = cx.choose(nb, "bearing"); double a = 2 * M_PI * (k + 0.31) / nb; int through = cx.choose(9, "through"), reach = cx.choose(4, "ends"); V m{0.15 + 0.33 * (through % 3), 0.21 + 0.29 * (through / 3)}; AreaOccupancyEstimator e{BO, BE, LowQ, UnkQ};
  for (double len : {3.0, 30.0, 400.0}) for (int occ = 0; occ < 2; ++occ) {
    double after = reach == 0 ? 0 : reach == 1 ? 0.11 : reach == 2 ? 2 : len; V A{m.x - len * std::cos(a), m.y - len * std::sin(a)}, B{m.x + after * std::cos(a), m.y + after * std::sin(a)};
    Occupancy got = est(e, A, B, p, occ), want; cx.step(); if (!reference(A, B, occ, want)) continue;
    bool close = false; for (V c : {V{0, 0}, V{1, 0}, V{0, 1}, V{1, 1}}) close |= line_dist(A, {B.x - A.x, B.y - A.y}, c) < 1e-4 || line_dist(B, {A.y - B.y, B.x - A.x}, c) < 1e-4; if (close) continue;
    MC_CHECK(cx, same(got, want), "area", show(A, B, p, occ) << " gives " << got << ", the geometry gives " << want); ++cx.counters["compared with the exact area"];
    cx.outcome(mc::Hash() << got.prob_occ << got.estimation_quality); cx.state(mc::Hash() << A.x << A.y << B.x << B.y << occ);
  }
}
